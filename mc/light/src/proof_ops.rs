//! The byte form of Merk proofs, and aggregate sum queries.

use ed::{Decode, Encode};
use grovedb_costs::TreeCostType;
use grovedb_query::{
    proofs::{encode_into, Decoder, Node, NodeType, Op, TreeFeatureType},
    AggregateSumQuery, ProofStatus, QueryItem,
};
use kit::{ensure, ensure_eq, hex, Ctx, Res, Spec};

use crate::query::{items, selects, shows, strings};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C10", level: "model_checking", run: c10 },
        Spec { id: "C11", level: "model_checking", run: c11 },
    ]
}

// ------------------------------------------------------- the format, modelled

fn varint(mut n: u64, o: &mut Vec<u8>) {
    loop {
        let b = (n & 0x7f) as u8;
        n >>= 7;
        if n == 0 {
            o.push(b);
            return;
        }
        o.push(b | 0x80);
    }
}
fn zig(n: i64) -> u64 {
    if n >= 0 {
        (n as u64) * 2
    } else {
        ((-(n as i128)) as u64).wrapping_mul(2).wrapping_sub(1)
    }
}

fn model_feature(f: &TreeFeatureType) -> Vec<u8> {
    let mut o = vec![];
    match f {
        TreeFeatureType::BasicMerkNode => o.push(0),
        TreeFeatureType::SummedMerkNode(s) => {
            o.push(1);
            varint(zig(*s), &mut o);
        }
        TreeFeatureType::BigSummedMerkNode(s) => {
            o.push(2);
            for i in (0..16).rev() {
                o.push((*s >> (8 * i)) as u8);
            }
        }
        TreeFeatureType::CountedMerkNode(n) => {
            o.push(3);
            varint(*n, &mut o);
        }
        TreeFeatureType::CountedSummedMerkNode(n, s) => {
            o.push(4);
            varint(*n, &mut o);
            varint(zig(*s), &mut o);
        }
        TreeFeatureType::ProvableCountedMerkNode(n) => {
            o.push(5);
            varint(*n, &mut o);
        }
        TreeFeatureType::ProvableCountedSummedMerkNode(n, s) => {
            o.push(6);
            varint(*n, &mut o);
            varint(zig(*s), &mut o);
        }
    }
    o
}

/// Small opcode, large opcode (0: none), for a plain push.
fn opcode(n: &Node, inverted: bool, large: bool) -> u8 {
    let (a, b, c, d) = match n {
        Node::Hash(_) => (0x01, 0x08, 0, 0),
        Node::KVHash(_) => (0x02, 0x09, 0, 0),
        Node::KV(..) => (0x03, 0x0a, 0x20, 0x28),
        Node::KVValueHash(..) => (0x04, 0x0b, 0x21, 0x29),
        Node::KVDigest(..) => (0x05, 0x0c, 0, 0),
        Node::KVRefValueHash(..) => (0x06, 0x0d, 0x22, 0x2a),
        Node::KVValueHashFeatureType(..) => (0x07, 0x0e, 0x23, 0x2b),
        Node::KVCount(..) => (0x14, 0x16, 0x24, 0x2c),
        Node::KVHashCount(..) => (0x15, 0x17, 0, 0),
        Node::KVRefValueHashCount(..) => (0x18, 0x19, 0x25, 0x2d),
        Node::KVDigestCount(..) => (0x1a, 0x1b, 0, 0),
        Node::KVValueHashFeatureTypeWithChildHash(..) => (0x1c, 0x1d, 0x2e, 0x2f),
    };
    match (inverted, large) {
        (false, false) => a,
        (true, false) => b,
        (false, true) => c,
        (true, true) => d,
    }
}

struct Parts<'a> {
    key: Option<&'a Vec<u8>>,
    value: Option<&'a Vec<u8>>,
    hash: Option<&'a [u8; 32]>,
    feature: Option<&'a TreeFeatureType>,
    child: Option<&'a [u8; 32]>,
    count: Option<u64>,
}

fn parts(n: &Node) -> Parts<'_> {
    let mut p = Parts { key: None, value: None, hash: None, feature: None, child: None, count: None };
    match n {
        Node::Hash(h) | Node::KVHash(h) => p.hash = Some(h),
        Node::KV(k, v) => (p.key, p.value) = (Some(k), Some(v)),
        Node::KVValueHash(k, v, h) | Node::KVRefValueHash(k, v, h) => {
            (p.key, p.value, p.hash) = (Some(k), Some(v), Some(h))
        }
        Node::KVDigest(k, h) => (p.key, p.hash) = (Some(k), Some(h)),
        Node::KVValueHashFeatureType(k, v, h, f) => {
            (p.key, p.value, p.hash, p.feature) = (Some(k), Some(v), Some(h), Some(f))
        }
        Node::KVCount(k, v, n) => (p.key, p.value, p.count) = (Some(k), Some(v), Some(*n)),
        Node::KVHashCount(h, n) => (p.hash, p.count) = (Some(h), Some(*n)),
        Node::KVRefValueHashCount(k, v, h, n) => {
            (p.key, p.value, p.hash, p.count) = (Some(k), Some(v), Some(h), Some(*n))
        }
        Node::KVDigestCount(k, h, n) => (p.key, p.hash, p.count) = (Some(k), Some(h), Some(*n)),
        Node::KVValueHashFeatureTypeWithChildHash(k, v, h, f, ch) => {
            (p.key, p.value, p.hash, p.feature, p.child) =
                (Some(k), Some(v), Some(h), Some(f), Some(ch))
        }
    }
    p
}

/// `force_large` gives the large form also where the value is short, which the
/// encoder never writes but the decoder accepts.
fn model_op(op: &Op, force_large: bool) -> Vec<u8> {
    let (n, inv) = match op {
        Op::Parent => return vec![0x10],
        Op::Child => return vec![0x11],
        Op::ParentInverted => return vec![0x12],
        Op::ChildInverted => return vec![0x13],
        Op::Push(n) => (n, false),
        Op::PushInverted(n) => (n, true),
    };
    let p = parts(n);
    let large = p.value.is_some_and(|v| v.len() >= 65536 || force_large);
    let mut o = vec![opcode(n, inv, large)];
    if let Some(k) = p.key {
        o.push(k.len() as u8);
        o.extend_from_slice(k);
    }
    if let Some(v) = p.value {
        if large {
            o.extend_from_slice(&(v.len() as u32).to_be_bytes());
        } else {
            o.extend_from_slice(&(v.len() as u16).to_be_bytes());
        }
        o.extend_from_slice(v);
    }
    if let Some(h) = p.hash {
        o.extend_from_slice(h);
    }
    if let Some(f) = p.feature {
        o.extend_from_slice(&model_feature(f));
    }
    if let Some(h) = p.child {
        o.extend_from_slice(h);
    }
    if let Some(n) = p.count {
        o.extend_from_slice(&n.to_be_bytes());
    }
    o
}

// ------------------------------------------------------------------- families

fn u64s(rich: bool) -> Vec<u64> {
    let mut v = vec![0, 1, u64::MAX];
    if rich {
        v.extend([2, 3, u64::MAX - 1, 0x0102030405060708]);
        for k in 1..10 {
            let b = 1u64.checked_shl(7 * k).unwrap_or(0);
            v.extend([b.wrapping_sub(1), b, b.wrapping_add(1)]);
        }
    } else {
        v.extend([127, 128, 0x0102030405060708]);
    }
    v.sort();
    v.dedup();
    v
}
fn i64s(rich: bool) -> Vec<i64> {
    let mut v = vec![0, 1, -1, i64::MIN, i64::MAX];
    if rich {
        v.extend([i64::MIN + 1, i64::MAX - 1, 0x0102030405060708]);
        for k in 1..9 {
            let b = 1i64 << (7 * k - 1);
            v.extend([b - 1, b, b + 1, -b - 1, -b, -b + 1]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn features(rich: bool) -> Vec<TreeFeatureType> {
    use TreeFeatureType::*;
    let mut v = vec![BasicMerkNode];
    v.extend(i64s(rich).into_iter().map(SummedMerkNode));
    for b in [0i128, 1, -1, i128::MIN, i128::MAX, 1 << 64, -(1 << 64), 0x0102030405060708090a0b0c0d0e0f10] {
        v.push(BigSummedMerkNode(b));
    }
    v.extend(u64s(rich).into_iter().map(CountedMerkNode));
    v.extend(u64s(rich).into_iter().map(ProvableCountedMerkNode));
    for n in u64s(false) {
        for s in i64s(false) {
            v.push(CountedSummedMerkNode(n, s));
            v.push(ProvableCountedSummedMerkNode(n, s));
        }
    }
    v
}

fn h(seed: u8) -> [u8; 32] {
    std::array::from_fn(|i| seed.wrapping_add(i as u8))
}

/// One node of each kind from the given parts.
fn nodes(k: &[u8], v: &[u8], f: TreeFeatureType, n: u64) -> Vec<Node> {
    let (k, v) = (|| k.to_vec(), || v.to_vec());
    vec![
        Node::Hash(h(1)),
        Node::KVHash(h(0xf0)),
        Node::KV(k(), v()),
        Node::KVValueHash(k(), v(), h(2)),
        Node::KVDigest(k(), h(3)),
        Node::KVRefValueHash(k(), v(), h(4)),
        Node::KVValueHashFeatureType(k(), v(), h(5), f),
        Node::KVCount(k(), v(), n),
        Node::KVHashCount(h(6), n),
        Node::KVRefValueHashCount(k(), v(), h(7), n),
        Node::KVDigestCount(k(), h(8), n),
        Node::KVValueHashFeatureTypeWithChildHash(k(), v(), h(9), f, h(0x80)),
    ]
}
fn ops(nodes: Vec<Node>) -> Vec<Op> {
    let mut v: Vec<Op> = nodes.iter().cloned().map(Op::Push).collect();
    v.extend(nodes.into_iter().map(Op::PushInverted));
    v.extend([Op::Parent, Op::Child, Op::ParentInverted, Op::ChildInverted]);
    v
}
fn name(op: &Op) -> String {
    let b = model_op(op, false);
    if b.len() > 200 {
        format!("{}..{} bytes {:x}", hex(&b[..40]), b.len(), kit::fnv(&b))
    } else {
        hex(&b)
    }
}

fn decode_list(b: &[u8]) -> Result<Vec<Op>, String> {
    let mut d = Decoder::new(b);
    let mut v = vec![];
    ensure_eq!(d.remaining_bytes(), b.len(), "remaining_bytes at the start");
    loop {
        let before = d.remaining_bytes();
        match d.next() {
            None => {
                ensure_eq!(d.remaining_bytes(), 0, "remaining_bytes at the end");
                ensure_eq!(before, 0, "ended with bytes left");
                return Ok(v);
            }
            Some(Err(e)) => return Err(format!("{e}")),
            Some(Ok(op)) => {
                ensure!(d.remaining_bytes() < before, "PROGRESS: no bytes consumed");
                v.push(op);
            }
        }
    }
}

/// The decoder modelled as: read ops one after the other from the bytes.
fn stream(b: &[u8]) -> Result<Vec<Op>, ()> {
    let mut rest = b;
    let mut v = vec![];
    while !rest.is_empty() {
        v.push(<Op as Decode>::decode(&mut rest).map_err(|_| ())?);
    }
    Ok(v)
}

// ------------------------------------------------------------------------ C10

fn c10(c: &Ctx) {
    // the decoder promises to ask for at most 64 MB for one value
    c.alloc_limit.store(64 * 1024 * 1024 + 4096, std::sync::atomic::Ordering::Relaxed);

    // feature types
    let fs = features(true);
    c.bound(format!("{} feature types: every varint length boundary", fs.len()));
    for f in &fs {
        c.case(|| format!("feature {f:?}"), || feature_case(c, f));
    }
    for nt in [
        (NodeType::NormalNode, 0),
        (NodeType::SumNode, 8),
        (NodeType::BigSumNode, 16),
        (NodeType::CountNode, 8),
        (NodeType::CountSumNode, 16),
        (NodeType::ProvableCountNode, 8),
        (NodeType::ProvableCountSumNode, 16),
    ] {
        c.case(
            || format!("node type {:?}", nt.0),
            || {
                ensure_eq!(nt.0.cost(), nt.1, "cost");
                ensure_eq!(nt.0.feature_len(), nt.1 + 1, "feature_len");
                Ok(())
            },
        );
    }

    // single ops
    let keys: Vec<Vec<u8>> = [0usize, 1, 2, 127, 128, 254, 255].iter().map(|n| pattern(*n)).collect();
    let values: Vec<Vec<u8>> = [0usize, 1, 2, 255, 256, 257, 65535, 65536, 65537, 70000]
        .iter()
        .map(|n| pattern(*n))
        .collect();
    let mut all = vec![];
    for k in &keys {
        for v in &values {
            if v.len() > 1000 && !c.thorough && k.len() > 1 && k.len() < 255 {
                continue;
            }
            for (f, n) in [
                (TreeFeatureType::SummedMerkNode(-300), 0x0102030405060708),
                (TreeFeatureType::ProvableCountedSummedMerkNode(u64::MAX, i64::MIN), u64::MAX),
            ] {
                all.extend(ops(nodes(k, v, f, n)));
            }
        }
    }
    for f in &fs {
        all.extend(ops(nodes(&[7], &[8, 9], *f, 3)));
    }
    for n in u64s(true) {
        all.extend(ops(nodes(&[7], &[8, 9], TreeFeatureType::BasicMerkNode, n)));
    }
    c.bound(format!(
        "{} single ops: every kind x key lengths {:?} x value lengths {:?} x features x counts",
        all.len(),
        keys.iter().map(Vec::len).collect::<Vec<_>>(),
        values.iter().map(Vec::len).collect::<Vec<_>>()
    ));
    c.par(&all, |op| {
        c.case(|| format!("op {}", name(op)), || op_case(c, op));
    });

    // lists of ops
    let small = ops(nodes(&[7], &[8], TreeFeatureType::CountedSummedMerkNode(200, -200), 9));
    let small2 = ops(nodes(&[], &[], TreeFeatureType::BasicMerkNode, 0));
    let fam: Vec<Op> = small.into_iter().chain(small2).collect();
    let len = c.pick(2, 3);
    c.bound(format!("every list of up to {len} ops out of {}, in canonical and long forms", fam.len()));
    for l in 0..=len {
        let seqs = kit::all_sequences(fam.len(), l);
        c.par(&seqs, |s| {
            c.case(
                || format!("list {s:?}"),
                || {
                    let v: Vec<Op> = s.iter().map(|i| fam[*i].clone()).collect();
                    list_case(c, &v)
                },
            );
        });
    }

    // hostile bytes
    let n = c.pick(2, 3);
    c.bound(format!("decoder: every byte string of up to {n} bytes"));
    let firsts: Vec<usize> = (0..256).collect();
    c.par(&firsts, |f| {
        c.case(
            || format!("bytes {f:02x}*"),
            || {
                for l in 0..n {
                    kit::sequences(256, l, |s| {
                        let b: Vec<u8> =
                            std::iter::once(*f as u8).chain(s.iter().map(|x| *x as u8)).collect();
                        c.step();
                        let _ = decode_list(&b);
                        let _ = <TreeFeatureType as Decode>::decode(&b[..]);
                    });
                }
                Ok(())
            },
        );
    });
    let mut seeds: Vec<Vec<u8>> = vec![];
    for op in ops(nodes(&[7], &[8], TreeFeatureType::CountedSummedMerkNode(1 << 62, -1), 9)) {
        for large in [false, true] {
            seeds.push(model_op(&op, large));
            let mut b = model_op(&op, large);
            b.push(0x10);
            b.extend(model_op(&Op::Push(Node::KV(vec![1], vec![2])), false));
            seeds.push(b);
        }
    }
    // overlong varints
    for extra in 0..=12 {
        for (tag, vars) in [(1u8, 1), (3, 1), (4, 2), (5, 1), (6, 2)] {
            let mut f = vec![tag];
            for _ in 0..vars {
                f.extend(std::iter::repeat_n(0x80, extra));
                f.push(1);
            }
            for head in [vec![0x07, 0, 0, 0], vec![0x23, 0, 0, 0, 0, 0]] {
                let mut b = head;
                b.extend([3; 32]);
                b.extend(&f);
                seeds.push(b.clone());
                b.push(0x11);
                seeds.push(b);
            }
            for head in [vec![0x1c, 0, 0, 0], vec![0x2f, 0, 0, 0, 0, 0]] {
                let mut b = head;
                b.extend([3; 32]);
                b.extend(&f);
                b.extend([4; 32]);
                b.push(0x12);
                seeds.push(b);
            }
        }
    }
    c.bound(format!("decoder: every one-byte edit and truncation of {} byte strings, short and long forms, overlong varints", seeds.len()));
    c.par(&seeds, |s| {
        c.case(|| format!("stream {}", hex(s)), || stream_case(c, s));
        for cut in 0..s.len() {
            c.case(|| format!("cut {} {}", cut, hex(s)), || stream_case(c, &s[..cut]));
        }
        for i in 0..s.len() {
            c.case(
                || format!("edits {i} {}", hex(s)),
                || {
                    let mut b = s.clone();
                    for x in 0..=255u8 {
                        b[i] = x;
                        stream_case(c, &b)?;
                    }
                    Ok(())
                },
            );
        }
    });
    // every large length over an empty rest
    let lens: Vec<u32> = (0..32).flat_map(|s| [1u32 << s, (1u32 << s) - 1, (1u32 << s).wrapping_add(1)]).chain([u32::MAX, 64 << 20, (64 << 20) + 1]).collect();
    c.bound(format!("decoder: {} large value lengths without a value", lens.len()));
    for op in (0x20..=0x25u8).chain(0x28..=0x2f) {
        for l in &lens {
            c.case(
                || format!("large {op:02x} {l}"),
                || {
                    let mut b = vec![op, 1, 5];
                    b.extend(l.to_be_bytes());
                    if *l > 2 {
                        ensure!(decode_list(&b).is_err(), "decoded a value that is not there");
                    }
                    stream_case(c, &b)
                },
            );
        }
    }
}

fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 7 + n) as u8).collect()
}

fn feature_case(c: &Ctx, f: &TreeFeatureType) -> Res {
    use TreeFeatureType::*;
    c.step();
    let want = model_feature(f);
    c.state(&want);
    ensure_eq!(f.encode().map_err(|e| e.to_string())?, want, "encode");
    ensure_eq!(f.encoding_length().map_err(|e| e.to_string())?, want.len(), "encoding_length");
    for tail in [&[][..], &[0x80], &[1, 2, 3]] {
        let mut b = want.clone();
        b.extend(tail);
        let mut r = &b[..];
        ensure_eq!(
            <TreeFeatureType as Decode>::decode(&mut r).map_err(|e| e.to_string())?,
            *f,
            "decode"
        );
        ensure_eq!(r, tail, "bytes left");
    }
    for cut in 0..want.len() {
        ensure!(<TreeFeatureType as Decode>::decode(&want[..cut]).is_err(), "decoded {cut} bytes");
    }
    let (count, nt, cost, special) = match f {
        BasicMerkNode => (None, NodeType::NormalNode, 0, None),
        SummedMerkNode(_) => (None, NodeType::SumNode, 8, Some(TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes)),
        BigSummedMerkNode(_) => (None, NodeType::BigSumNode, 16, Some(TreeCostType::TreeFeatureUses16Bytes)),
        CountedMerkNode(n) => (Some(*n), NodeType::CountNode, 8, Some(TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes)),
        CountedSummedMerkNode(n, _) => (Some(*n), NodeType::CountSumNode, 16, Some(TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes)),
        ProvableCountedMerkNode(n) => (Some(*n), NodeType::ProvableCountNode, 8, Some(TreeCostType::TreeFeatureUsesVarIntCostAs8Bytes)),
        ProvableCountedSummedMerkNode(n, _) => (Some(*n), NodeType::ProvableCountSumNode, 16, Some(TreeCostType::TreeFeatureUsesTwoVarIntsCostAs16Bytes)),
    };
    ensure_eq!(f.count(), count, "count");
    ensure_eq!(f.node_type(), nt, "node_type");
    ensure_eq!(f.encoding_cost(), cost + 1, "encoding_cost");
    let got = f.tree_feature_specialized_type_and_length();
    ensure_eq!(got.is_some(), special.is_some(), "specialized");
    if let (Some((t, l)), Some(w)) = (got, special) {
        ensure!(
            std::mem::discriminant(&t) == std::mem::discriminant(&w),
            "specialized type"
        );
        ensure_eq!(l as usize, want.len() - 1, "specialized length");
    }
    Ok(())
}

fn op_case(c: &Ctx, op: &Op) -> Res {
    c.step();
    let want = model_op(op, false);
    c.state(&want);
    let got = Encode::encode(op).map_err(|e| e.to_string())?;
    ensure!(got == want, "encode: got {}", hex(&got[..got.len().min(200)]));
    ensure_eq!(op.encoding_length(), want.len(), "encoding_length");
    let back = Op::decode(&want).map_err(|e| e.to_string())?;
    ensure!(back == *op, "decode");
    ensure!(decode_list(&want)? == [op.clone()], "decoder");
    // what precedes the end of the op is never an op
    let cuts: Vec<usize> = if want.len() < 600 {
        (0..want.len()).collect()
    } else {
        (0..40).chain(want.len() - 80..want.len()).collect()
    };
    for cut in cuts {
        ensure!(Op::decode(&want[..cut]).is_err(), "decoded the first {cut} bytes");
    }
    // what follows the op does not matter
    for tail in [0u8, 0x10, 0xff] {
        let mut b = want.clone();
        b.extend([tail; 3]);
        let mut r = &b[..];
        let back = <Op as Decode>::decode(&mut r).map_err(|e| e.to_string())?;
        ensure!(back == *op && r.len() == 3, "decode with a tail");
        let mut d = Decoder::new(&b);
        ensure!(d.next().is_some_and(|x| x.is_ok_and(|x| x == *op)), "decoder with a tail");
        ensure_eq!(d.remaining_bytes(), 3, "remaining_bytes");
    }
    let large = model_op(op, true);
    if large != want {
        ensure!(Op::decode(&large).is_ok_and(|x| x == *op), "decode of the large form");
    }
    Ok(())
}

fn list_case(c: &Ctx, v: &[Op]) -> Res {
    c.step();
    let want: Vec<u8> = v.iter().flat_map(|o| model_op(o, false)).collect();
    let mut got = vec![0xaa];
    encode_into(v.iter(), &mut got);
    ensure_eq!(got[0], 0xaa, "what was there before");
    ensure!(got[1..] == want[..], "encode_into");
    ensure_eq!(decode_list(&want)?, v, "decoder");
    let mut d = Decoder::new(&want);
    let mut left = want.len();
    for o in v {
        d.next();
        left -= model_op(o, false).len();
        ensure_eq!(d.remaining_bytes(), left, "remaining_bytes");
    }
    ensure!(d.next().is_none() && d.next().is_none(), "ends and stays ended");
    let large: Vec<u8> = v.iter().flat_map(|o| model_op(o, true)).collect();
    ensure_eq!(decode_list(&large)?, v, "decoder of large forms");
    c.state(&want);
    Ok(())
}

/// Whatever the bytes are, the decoder reads each of them once.
fn stream_case(c: &Ctx, b: &[u8]) -> Res {
    c.step();
    match (decode_list(b), stream(b)) {
        (Ok(v), Ok(w)) => {
            ensure!(v == w, "the decoder gives {v:?}, the bytes say {w:?}");
            c.outcome("decoded");
        }
        (Err(e), _) if e.starts_with("PROGRESS") || e.starts_with("remaining") || e.starts_with("ended") => {
            return Err(e)
        }
        (Err(_), Err(())) => c.outcome("rejected"),
        (g, w) => return Err(format!("the decoder gives {g:?}, the bytes say {w:?}")),
    }
    Ok(())
}

// ------------------------------------------------------------------------ C11

fn c11(c: &Ctx) {
    let probes = strings(&[0, 1, 2, 3], 2);
    let its = items(&[vec![1], vec![2]], true);
    // single queries, by every constructor
    c.bound(format!("{} items x limits x directions x constructors", its.len()));
    let limits = [None, Some(0), Some(1), Some(u16::MAX - 1), Some(u16::MAX)];
    let sums = [0, 1, 2, u64::MAX - 1, u64::MAX];
    for l in limits {
        for s in sums {
            c.case(|| format!("constructors {l:?} {s}"), || constructors(c, l, s, &its));
        }
    }
    // merges of up to three queries
    let mut qs = vec![];
    for i in [&its[1], &its[3], &its[its.len() - 1]] {
        for l in limits {
            for s in [0, 1, u64::MAX - 1, u64::MAX] {
                for ltr in [true, false] {
                    qs.push(AggregateSumQuery::new_single_query_item_with_direction(
                        i.clone(),
                        ltr,
                        s,
                        l,
                    ));
                }
            }
        }
    }
    if !c.thorough {
        qs.retain(|q| q.limit_of_items_to_check != Some(0) && (q.left_to_right || q.sum_limit < 2));
    }
    c.bound(format!("merges of up to 3 out of {} queries", qs.len()));
    for n in 0..=3 {
        let seqs = kit::all_sequences(qs.len(), n);
        c.par(&seqs, |s| {
            c.case(
                || format!("merge {s:?}"),
                || {
                    let v: Vec<_> = s.iter().map(|i| qs[*i].clone()).collect();
                    merge_case(c, &v, &probes)
                },
            );
        });
    }
    // proof status: only a consumed result lowers the limit
    for l in limits {
        for n in limits {
            c.case(
                || format!("status {l:?} {n:?}"),
                || {
                    let s = ProofStatus::new_with_limit(l);
                    ensure_eq!(s.limit, l, "limit");
                    ensure_eq!(s.hit_limit(), l == Some(0), "hit_limit");
                    let u = s.update_limit(n);
                    ensure_eq!(u.limit, n.or(l), "update_limit");
                    Ok(())
                },
            );
        }
    }
}

fn constructors(c: &Ctx, l: Option<u16>, s: u64, its: &[QueryItem]) -> Res {
    use AggregateSumQuery as A;
    let check = |n: &str, q: A, items: &[QueryItem], ltr: bool, lim: Option<u16>| -> Res {
        c.step();
        ensure!(q.items == items, "{n}: items {}", shows(&q.items));
        ensure_eq!(q.left_to_right, ltr, "{n}: direction");
        ensure_eq!(q.sum_limit, s, "{n}: sum limit");
        ensure_eq!(q.limit_of_items_to_check, lim, "{n}: limit");
        Ok(())
    };
    let full = [QueryItem::RangeFull(..)];
    check("new", A::new(s, l), &full, true, l)?;
    check("new_descending", A::new_descending(s, l), &full, false, l)?;
    check("new_range_full", A::new_range_full(s, l), &full, true, l)?;
    check("new_range_full_descending", A::new_range_full_descending(s, l), &full, false, l)?;
    let ks = vec![vec![2u8], vec![1]];
    let kq: Vec<QueryItem> = ks.iter().cloned().map(QueryItem::Key).collect();
    check("new_single_key", A::new_single_key(vec![2], s), &kq[..1], true, Some(1))?;
    check("new_with_keys", A::new_with_keys(ks.clone(), s, l), &kq, true, l)?;
    check("new_with_keys_reversed", A::new_with_keys_reversed(ks, s, l), &kq, false, l)?;
    for i in its {
        let one = std::slice::from_ref(i);
        check("new_single_query_item", A::new_single_query_item(i.clone(), s, l), one, true, l)?;
        check("new_with_query_items", A::new_with_query_items(one.to_vec(), s, l), one, true, l)?;
        for d in [true, false] {
            check(
                "new_single_query_item_with_direction",
                A::new_single_query_item_with_direction(i.clone(), d, s, l),
                one,
                d,
                l,
            )?;
        }
    }
    Ok(())
}

fn merge_case(c: &Ctx, v: &[AggregateSumQuery], probes: &[Vec<u8>]) -> Res {
    c.step();
    let got = AggregateSumQuery::merge_multiple(v.to_vec());
    let Some(first) = v.first() else {
        let q = got.map_err(|e| e.to_string())?;
        ensure_eq!((q.sum_limit, q.limit_of_items_to_check), (0, Some(0)), "no queries");
        return Ok(());
    };
    let same = v.iter().all(|q| q.left_to_right == first.left_to_right);
    let sum = v.iter().try_fold(0u64, |a, q| a.checked_add(q.sum_limit));
    let all_limited = v.iter().all(|q| q.limit_of_items_to_check.is_some());
    let total: u32 = v.iter().map(|q| q.limit_of_items_to_check.unwrap_or(0) as u32).sum();
    let mut with = Ok(first.clone());
    for q in &v[1..] {
        with = with.and_then(|mut w: AggregateSumQuery| w.merge_with(q.clone()).map(|_| w));
    }
    for (name, got, in_order) in [("merge_multiple", &got, v.len() < 3), ("merge_with", &with, true)] {
        // an unlimited query lifts the limit, unless limits before it already
        // overflowed; merge_multiple reorders the rest
        let limit = if all_limited {
            u16::try_from(total).ok().map(Some)
        } else {
            let mut acc = Some(first.limit_of_items_to_check);
            for q in &v[1..] {
                acc = match (acc, q.limit_of_items_to_check) {
                    (Some(Some(a)), Some(b)) => a.checked_add(b).map(Some),
                    (Some(_), _) => Some(None),
                    (None, _) => None,
                };
            }
            if !in_order && acc.is_none() {
                continue;
            }
            if !in_order && total > u16::MAX as u32 {
                continue;
            }
            acc
        };
        match (same, sum, limit) {
            (true, Some(s), Some(l)) => {
                let q = got.as_ref().map_err(|e| format!("{name}: {e}"))?;
                ensure_eq!(q.sum_limit, s, "{name}: sum limit");
                ensure_eq!(q.limit_of_items_to_check, l, "{name}: limit");
                ensure_eq!(q.left_to_right, first.left_to_right, "{name}: direction");
                for k in probes {
                    ensure_eq!(
                        q.items.iter().any(|i| selects(i, k)),
                        v.iter().any(|q| q.items.iter().any(|i| selects(i, k))),
                        "{name}: key {}",
                        hex(k)
                    );
                }
                c.outcome("merged");
                c.state(format!("{s} {l:?} {}", shows(&q.items)).as_bytes());
            }
            _ => {
                ensure!(got.is_err(), "{name} of incompatible or overflowing queries succeeded");
                c.outcome("refused");
            }
        }
    }
    Ok(())
}
