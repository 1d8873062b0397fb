//! C03: two ways to arrive at the same subtree path are indistinguishable.
//!
//! The model of a path is its list of segments. Every program of derivations
//! up to a depth is executed on the real types; each object it produces is
//! compared with the model and with the plain slice form of the model.
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

use grovedb_path::{SubtreePath, SubtreePathBuilder};
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

type Seg = Vec<u8>;
type P<'b> = SubtreePath<'b, Seg>;
type B<'b> = SubtreePathBuilder<'b, Seg>;

pub fn specs() -> Vec<Spec> {
    vec![Spec {
        id: "C03",
        level: "model_checking",
        run: c03,
    }]
}

fn hash(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

struct Env<'c> {
    ctx: &'c Ctx,
    segs: Vec<Seg>,
    others: Vec<Vec<Seg>>,
}

fn show(v: &[Seg]) -> String {
    v.iter().map(|s| kit::hex(s)).collect::<Vec<_>>().join("/")
}

fn compare(e: &Env, p: &P, b: Option<&B>, model: &[Seg]) -> Res {
    let canon = SubtreePath::from(model);
    let canon_b: B = canon.derive_owned();
    let tree = p.to_vec();
    ensure_eq!(tree, model, "to_vec");
    ensure_eq!(p.len(), model.len(), "len");
    ensure_eq!(p.is_empty(), model.is_empty(), "is_empty");
    ensure_eq!(p.is_root(), model.is_empty(), "is_root");
    let rev: Vec<Seg> = p.clone().into_reverse_iter().map(|s| s.to_vec()).collect();
    ensure!(rev.iter().eq(model.iter().rev()), "reverse iteration: {rev:?} of {model:?}");
    ensure_eq!(hash(p), hash(&canon), "hash against the slice form");
    ensure_eq!(p.to_string(), canon.to_string(), "display");
    let shown: Vec<String> = model.iter().map(|s| crate::misc::plain(s)).collect();
    ensure_eq!(p.to_string(), shown.join("/"), "display");
    let c = p.clone();
    ensure!(c == *p && hash(&c) == hash(p), "a clone differs");
    match p.derive_parent() {
        None => ensure!(model.is_empty(), "no parent"),
        Some((pp, last)) => {
            ensure!(!model.is_empty(), "the root path has a parent");
            ensure_eq!(last, model.last().unwrap().as_slice(), "last segment");
            ensure_eq!(pp.to_vec(), model[..model.len() - 1], "parent");
        }
    }
    if let Some(b) = b {
        ensure_eq!(b.to_vec(), model, "builder to_vec");
        ensure_eq!(b.len(), model.len(), "builder len");
        ensure_eq!(b.is_empty(), model.is_empty(), "builder is_empty");
        ensure_eq!(b.is_root(), model.is_empty(), "builder is_root");
        ensure_eq!(hash(b), hash(&canon), "builder hash");
        let rev: Vec<Seg> = b.reverse_iter().map(|s| s.to_vec()).collect();
        ensure!(rev.iter().eq(model.iter().rev()), "builder reverse iteration");
        match b.derive_parent() {
            None => ensure!(model.is_empty(), "builder without parent"),
            Some((pp, last)) => {
                ensure!(!model.is_empty(), "root builder has a parent");
                ensure_eq!(last, model.last().unwrap().as_slice(), "builder last segment");
                ensure_eq!(pp.to_vec(), model[..model.len() - 1], "builder parent");
            }
        }
        ensure!(*b == canon && canon == *b, "builder equals its slice form");
        ensure!(*b == canon_b && canon_b == *b, "builder equals the derived slice");
        ensure!(*b == *p && *p == *b, "builder equals path");
        ensure_eq!(
            p.partial_cmp(b),
            Some(std::cmp::Ordering::Equal),
            "path and builder order"
        );
    }
    for o in &e.others {
        let q = SubtreePath::from(o.as_slice());
        let same = o.as_slice() == model;
        ensure!((*p == q) == same && (q == *p) == same, "equality with {}", show(o));
        let ord = p.cmp(&q);
        ensure_eq!(ord, canon.cmp(&q), "order against {}", show(o));
        ensure_eq!(q.cmp(p), ord.reverse(), "order is antisymmetric against {}", show(o));
        ensure_eq!(ord == std::cmp::Ordering::Equal, same, "order against {}", show(o));
        if o.len() != model.len() {
            ensure_eq!(ord, o.len().cmp(&model.len()), "the longer path comes first, against {}", show(o));
        }
        if let Some(b) = b {
            ensure!((*b == q) == same && (q == *b) == same, "builder equality with {}", show(o));
            let qb: B = q.derive_owned();
            ensure!((*b == qb) == same && (qb == *b) == same, "builder equality with {}", show(o));
            ensure_eq!(b.cmp(&qb), ord, "builder order against {}", show(o));
        }
    }
    Ok(())
}

fn path<'x>(e: &Env, p: &P<'x>, model: &[Seg], log: &str, depth: usize) {
    if e.ctx.out_of_time() {
        return;
    }
    e.ctx.step();
    e.ctx.state(format!("{p:?}").as_bytes());
    e.ctx.case(|| log.to_string(), || compare(e, p, None, model));
    if depth == 0 {
        return;
    }
    builder(e, &p.derive_owned(), model, &format!("{log}.own"), depth - 1);
    for (i, s) in e.segs.iter().enumerate() {
        let mut m = model.to_vec();
        m.push(s.clone());
        let l = format!("{log}.child{i}");
        builder(e, &p.derive_owned_with_child(s.clone()), &m, &l, depth - 1);
        if i < 2 {
            let l = format!("{log}.ref{i}");
            builder(e, &p.derive_owned_with_child(s.as_slice()), &m, &l, depth - 1);
        }
    }
    if let Some((pp, _)) = p.derive_parent() {
        path(e, &pp, &model[..model.len() - 1], &format!("{log}.up"), depth - 1);
    }
    let c: B = SubtreePathBuilder::owned_from_path(p.clone());
    builder(e, &c, model, &format!("{log}.copy"), depth - 1);
}

fn builder<'x>(e: &Env, b: &'x B<'x>, model: &[Seg], log: &str, depth: usize) {
    if e.ctx.out_of_time() {
        return;
    }
    e.ctx.step();
    e.ctx.state(format!("{b:?}").as_bytes());
    let p = SubtreePath::from(b);
    e.ctx.case(|| log.to_string(), || compare(e, &p, Some(b), model));
    if depth == 0 {
        return;
    }
    path(e, &p, model, &format!("{log}.path"), depth - 1);
    builder(e, &b.derive_owned(), model, &format!("{log}.own"), depth - 1);
    for (i, s) in e.segs.iter().enumerate() {
        let mut m = model.to_vec();
        m.push(s.clone());
        let l = format!("{log}.child{i}");
        builder(e, &b.derive_owned_with_child(s.clone()), &m, &l, depth - 1);
        let mut c = b.clone();
        c.push_segment(s);
        builder(e, &c, &m, &format!("{log}.push{i}"), depth - 1);
    }
    if let Some((pp, _)) = b.derive_parent() {
        path(e, &pp, &model[..model.len() - 1], &format!("{log}.up"), depth - 1);
    }
    match b.derive_parent_owned() {
        Some((pb, last)) => {
            let l = format!("{log}.upown");
            e.ctx.case(
                || format!("{l}:segment"),
                || {
                    ensure_eq!(model.last(), Some(&last), "segment cut off");
                    Ok(())
                },
            );
            if !model.is_empty() {
                builder(e, &pb, &model[..model.len() - 1], &l, depth - 1);
            }
        }
        None => {
            e.ctx.case(
                || format!("{log}.upown:none"),
                || {
                    ensure!(model.is_empty(), "no owned parent");
                    Ok(())
                },
            );
        }
    }
    let c: B = SubtreePathBuilder::owned_from_path(p.clone());
    builder(e, &c, model, &format!("{log}.copy"), depth - 1);
    let c: B = SubtreePathBuilder::owned_from_iter(model.iter());
    builder(e, &c, model, &format!("{log}.iter"), depth - 1);
}

fn c03(ctx: &Ctx) {
    let depth = ctx.pick(5, 6);
    let segs: Vec<Seg> = vec![vec![], b"a".to_vec(), vec![b'b'; 300]];
    let mut others = vec![];
    let alphabet: [&[u8]; 4] = [b"", b"a", b"aa", b"\xff"];
    kit::sequences_upto(4, 2, |s| {
        others.push(s.iter().map(|i| alphabet[*i].to_vec()).collect::<Vec<_>>())
    });
    others.push(vec![vec![b'b'; 300]]);
    others.push(vec![b"a".to_vec(), vec![b'b'; 300]]);
    others.push(vec![vec![b'b'; 300], b"a".to_vec(), vec![]]);
    let e = Env { ctx, segs, others };
    ctx.bound(format!(
        "every program of at most {depth} derivations (path of / derive owned / derive with owned or borrowed child / push / parent / owned parent / copy / from iterator), segments empty, one byte and 300 bytes, from every base slice of at most 2 segments, from an empty builder and from a multi-segment builder; each object compared with {} other paths",
        e.others.len()
    ));
    ctx.assume("the direction of the order between two different paths of one length is not claimed, only that it is one total order on the contents");
    let mut starts: Vec<Vec<Seg>> = vec![];
    kit::sequences_upto(2, 2, |s| starts.push(s.iter().map(|i| e.segs[*i].clone()).collect()));
    let jobs: Vec<(usize, bool)> =
        (0..starts.len()).flat_map(|i| [(i, false), (i, true)]).collect();
    ctx.par(&jobs, |(i, own)| {
        let s = &starts[*i];
        if *own {
            let b: B = SubtreePathBuilder::owned_from_iter(s.iter());
            builder(&e, &b, s, &format!("iter[{}]", show(s)), depth);
        } else {
            path(&e, &SubtreePath::from(s.as_slice()), s, &format!("slice[{}]", show(s)), depth);
        }
    });
    // long paths, of short and of long segments
    let long: Vec<Vec<Seg>> = ctx
        .pick(vec![45, 254, 256, 301], vec![20, 45, 254, 255, 256, 257, 301, 1000])
        .into_iter()
        .flat_map(|n: usize| {
            let plain: Vec<Seg> = (0..n).map(|i| vec![(i % 7) as u8; i % 3 + 1]).collect();
            let wide: Vec<Seg> = (0..n).map(|i| vec![i as u8; if i % 9 == 4 { 400 } else { 30 }]).collect();
            [plain, wide]
        })
        .collect();
    let mut others = vec![];
    for l in &long {
        others.push(l.clone());
        for f in [
            |v: &mut Vec<Seg>| v[0] = vec![9, 9],
            |v: &mut Vec<Seg>| *v.last_mut().unwrap() = vec![9, 9],
            |v: &mut Vec<Seg>| {
                let k = v.len() / 2;
                v[k] = vec![9, 9]
            },
            |v: &mut Vec<Seg>| {
                v.pop();
            },
            |v: &mut Vec<Seg>| {
                v.remove(0);
            },
            |v: &mut Vec<Seg>| {
                v.last_mut().unwrap().pop();
            },
        ] {
            let mut o = l.clone();
            f(&mut o);
            others.push(o);
        }
    }
    let depth = ctx.pick(2, 3);
    ctx.bound(format!("the same with at most {depth} derivations from {} paths of up to {} segments, some of 400 bytes", long.len(), long[long.len() - 1].len()));
    let el = Env { ctx, segs: vec![b"a".to_vec(), vec![b'b'; 500]], others };
    let idx: Vec<usize> = (0..long.len()).collect();
    ctx.par(&idx, |i| {
        let s = &long[*i];
        let b: B = SubtreePathBuilder::owned_from_iter(s.iter());
        builder(&el, &b, s, &format!("long {i} iter"), depth);
        path(&el, &SubtreePath::from(s.as_slice()), s, &format!("long {i} slice"), depth);
        // one by one, and taken apart again
        let mut b: B = SubtreePathBuilder::owned_from_iter(std::iter::empty::<Seg>());
        for (k, x) in s.iter().enumerate() {
            b.push_segment(x);
            if k % 25 == 0 {
                builder(&el, &b, &s[..=k], &format!("long {i} pushed {k}"), 0);
            }
        }
        let mut n = s.len();
        while let Some((up, last)) = b.derive_parent_owned() {
            n -= 1;
            let up: B = SubtreePathBuilder::owned_from_path(SubtreePath::from(&up));
            ctx.case(
                || format!("long {i} up to {n}"),
                || {
                    ensure_eq!(s[n], last, "segment cut off");
                    ensure_eq!(up.to_vec(), s[..n], "parent");
                    Ok(())
                },
            );
            b = up;
        }
        ctx.case(
            || format!("long {i} top"),
            || {
                ensure_eq!(n, 0, "segments left");
                Ok(())
            },
        );
    });
    // order among all pairs is transitive
    let o = &e.others;
    for a in o {
        for b in o {
            for c in o {
                let (pa, pb, pc) = (
                    SubtreePath::from(a.as_slice()),
                    SubtreePath::from(b.as_slice()),
                    SubtreePath::from(c.as_slice()),
                );
                ctx.case(
                    || format!("order {} {} {}", show(a), show(b), show(c)),
                    || {
                        if pa <= pb && pb <= pc {
                            ensure!(pa <= pc, "order is not transitive");
                        }
                        if a == b {
                            ensure!(hash(&pa) == hash(&pb), "equal paths hash differently");
                        }
                        Ok(())
                    },
                );
            }
        }
    }
}
