//! C21: what is shown. C22: versions. C23: messages of the debugger.
use std::{
    collections::BTreeMap,
    io::{Error, Write},
};

use grovedb_costs::{CostContext, CostResult, OperationCost};
use grovedb_element::{reference_path::ReferencePathType, Element};
use grovedb_version::{
    check_grovedb_v0, check_grovedb_v0_or_v1, check_grovedb_v0_or_v1_with_cost,
    check_grovedb_v0_with_cost, check_merk_v0, check_merk_v0_with_cost,
    error::GroveVersionError,
    version::{GroveVersion, GROVE_VERSIONS},
    TryFromVersioned, TryIntoVersioned,
};
use grovedb_visualize::{to_hex, visualize_to_vec, DebugByteVectors, DebugBytes, Drawer, Visualize};
use grovedbg_types as dbg;
use kit::{ensure, ensure_eq, Ctx, Res, Spec};

pub fn specs() -> Vec<Spec> {
    vec![
        Spec { id: "C21", level: "model_checking", run: c21 },
        Spec { id: "C22", level: "model_checking", run: c22 },
        Spec { id: "C23", level: "model_checking", run: c23 },
    ]
}

// -------------------------------------------------------------------- C21

fn hex_model(b: &[u8]) -> String {
    let hex = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    if b.len() < 8 {
        hex(b)
    } else {
        format!("{}..{}", hex(&b[..4]), hex(&b[b.len() - 4..]))
    }
}

fn shown_model(b: &[u8]) -> Vec<u8> {
    let mut o = format!("[hex: {}", hex_model(b));
    if let Ok(s) = std::str::from_utf8(b) {
        o += ", str: ";
        let mut part = String::new();
        for c in s.chars() {
            if s.len() > 32 && part.len() + c.len_utf8() > 33 {
                break;
            }
            part.push(c);
        }
        o += &part;
    }
    o += "]";
    o.into_bytes()
}

/// What a drawer makes of text at a level.
fn drawn(level: usize, text: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for b in text {
        if *b != b'\n' {
            o.push(*b);
        } else if level > 0 {
            o.push(b'\n');
            o.extend(vec![b' '; 4 * level - 1]);
        }
    }
    o
}

/// Takes a few bytes at a time and fails after some.
struct Slow<'a> {
    out: &'a mut Vec<u8>,
    room: usize,
    flushes: &'a mut usize,
}
impl Write for Slow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(3).min(self.room);
        if n == 0 && !b.is_empty() {
            return Err(Error::other("full"));
        }
        self.out.extend(&b[..n]);
        self.room -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        *self.flushes += 1;
        if self.room == 0 {
            return Err(Error::other("full"));
        }
        Ok(())
    }
}

fn c21(ctx: &Ctx) {
    elements_shown(ctx);
    // bytes out of characters of every width and broken ones
    let units: [&[u8]; 9] = [
        b"a", b"\n", "é".as_bytes(), "€".as_bytes(), "𝄞".as_bytes(), &[0xff], &[0xc3], b"\0", &[0x80],
    ];
    let depth = ctx.pick(4, 5);
    ctx.bound(format!("all sequences of up to {depth} of 9 characters and broken bytes, alone and after 0 to 36 plain ones; also followed by plain ones; shown at levels 0 to 2"));
    let heads: Vec<usize> = (0..=36).collect();
    ctx.par(&heads, |n| {
        ctx.case(
            || format!("bytes after {n} plain ones"),
            || {
                let mut bad = Ok(());
                kit::sequences_upto(units.len(), depth, |s| {
                    if bad.is_err() {
                        return;
                    }
                    for tail in [0, 1, 8] {
                        let mut b = vec![b'x'; *n];
                        for i in s {
                            b.extend(units[*i]);
                        }
                        b.extend(vec![b'y'; tail]);
                        ctx.step();
                        ctx.state(&b);
                        bad = bytes_shown(&b);
                        if bad.is_err() {
                            return;
                        }
                    }
                });
                bad
            },
        );
    });
    // drawers
    let n = ctx.pick(5, 6);
    ctx.bound(format!("drawers: all sequences of up to {n} of: four texts, down, up (not above the top), flush; with a writer that takes 3 bytes at a time and fails at every point"));
    let texts: [&[u8]; 4] = [b"a\nb", b"", b"\n\nc", b"long enough"];
    let firsts: Vec<usize> = (0..7).collect();
    ctx.par(&firsts, |first| {
        ctx.case(
            || format!("drawer: first {first}"),
            || {
                let mut bad = Ok(());
                kit::sequences_upto(7, n - 1, |s| {
                    if bad.is_err() {
                        return;
                    }
                    let ops: Vec<usize> = std::iter::once(*first).chain(s.iter().copied()).collect();
                    bad = drawer(ctx, &texts, &ops);
                });
                bad
            },
        );
    });
}

/// How a key or a value is written: as text if it is plain, else in hex.
pub fn plain(b: &[u8]) -> String {
    let ok = |c: &u8| c.is_ascii_alphanumeric() || b"_-/\\[]@".contains(c);
    if b.iter().all(ok) {
        String::from_utf8(b.to_vec()).unwrap()
    } else {
        format!("0x{}", hex_all(b))
    }
}
fn hex_all(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// A reference as `Display` and as `Debug` show it.
fn reference_model(r: &ReferencePathType) -> (String, String) {
    use ReferencePathType::*;
    let slash = |p: &[Vec<u8>]| p.iter().map(|s| hex_all(s)).collect::<Vec<_>>().join("/");
    let path = |p: &[Vec<u8>]| {
        p.iter()
            .map(|s| {
                let word = s.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_');
                let text = String::from_utf8_lossy(s).into_owned();
                hex_all(s) + &if word { format!("({text})") } else { String::new() }
            })
            .collect::<Vec<_>>()
            .join("/")
    };
    let shown = |k: &[u8]| String::from_utf8_lossy(&drawn(0, &shown_model(k))).into_owned();
    match r {
        AbsolutePathReference(p) => (
            format!("AbsolutePathReference({})", path(p)),
            format!("absolute path reference: {}", slash(p)),
        ),
        UpstreamRootHeightReference(n, p) => (
            format!("UpstreamRootHeightReference({n}, {})", path(p)),
            format!("upstream root height reference: [height: {n}]{}", slash(p)),
        ),
        UpstreamRootHeightWithParentPathAdditionReference(n, p) => (
            format!("UpstreamRootHeightWithParentPathAdditionReference({n}, {})", path(p)),
            format!(
                "upstream root height with parent path addition reference: [height: {n}]{}",
                slash(p)
            ),
        ),
        UpstreamFromElementHeightReference(n, p) => (
            format!("UpstreamFromElementHeightReference({n}, {})", path(p)),
            format!("upstream from element reference: [up: {n}]{}", slash(p)),
        ),
        CousinReference(k) => (
            format!("CousinReference({})", hex_all(k)),
            format!("cousin reference: {}", shown(k)),
        ),
        RemovedCousinReference(p) => (
            format!("RemovedCousinReference({})", path(p)),
            format!("removed cousin reference: {}", slash(p)),
        ),
        SiblingReference(k) => (
            format!("SiblingReference({})", hex_all(k)),
            format!("sibling reference: {}", shown(k)),
        ),
    }
}

/// An element as `Display` and as `Debug` show it.
fn element_model(e: &Element) -> (String, String) {
    use Element::*;
    let shown = |b: &[u8]| String::from_utf8_lossy(&drawn(0, &shown_model(b))).into_owned();
    let root = |k: &Option<Vec<u8>>| match k {
        None => ("None".to_string(), "None".to_string()),
        Some(k) => (hex_all(k), shown(k)),
    };
    let f = e.get_flags();
    let (d, v) = match e {
        Item(x, _) => (format!("Item({}", plain(x)), format!("item: {}", shown(x))),
        Reference(r, hop, _) => {
            let hop = hop.map_or("None".to_string(), |h| h.to_string());
            (
                format!("Reference({}, max_hop: {hop}", reference_model(r).0),
                "ref".to_string(),
            )
        }
        Tree(k, _) => {
            let (a, b) = root(k);
            (format!("Tree({a}"), format!("tree: {b}"))
        }
        SumItem(s, _) => (format!("SumItem({s}"), format!("sum_item: {s}")),
        SumTree(k, s, _) => {
            let (a, b) = root(k);
            (format!("SumTree({a}, {s}"), format!("sum_tree: {b} {s}"))
        }
        BigSumTree(k, s, _) => {
            let (a, b) = root(k);
            (format!("BigSumTree({a}, {s}"), format!("big_sum_tree: {b} {s}"))
        }
        CountTree(k, s, _) => {
            let (a, b) = root(k);
            (format!("CountTree({a}, {s}"), format!("count_tree: {b} {s}"))
        }
        CountSumTree(k, c, s, _) => {
            let (a, b) = root(k);
            (
                format!("CountSumTree({a}, {c}, {s}"),
                format!("count_sum_tree: {b}count: {c}, sum {s}"),
            )
        }
        ProvableCountTree(k, s, _) => {
            let (a, b) = root(k);
            (
                format!("ProvableCountTree({a}, {s}"),
                format!("provable_count_tree: {b} {s}"),
            )
        }
        ProvableCountSumTree(k, c, s, _) => {
            let (a, b) = root(k);
            (
                format!("ProvableCountSumTree({a}, {c}, {s}"),
                format!("provable_count_sum_tree: {b}count: {c}, sum {s}"),
            )
        }
        ItemWithSumItem(x, s, _) => (
            format!("ItemWithSumItem({} , {s}", plain(x)),
            format!("item_with_sum_item: {} {s}", shown(x)),
        ),
        CommitmentTree(c, p, _) => (
            format!("CommitmentTree(count: {c}, chunk_power: {p}"),
            format!("commitment_tree: count: {c} chunk_power: {p}"),
        ),
        MmrTree(n, _) => (
            format!("MmrTree(mmr_size: {n}"),
            format!("mmr_tree: mmr_size: {n}"),
        ),
        BulkAppendTree(c, p, _) => (
            format!("BulkAppendTree(total_count: {c}, chunk_power: {p}"),
            format!("bulk_append_tree: total_count: {c} chunk_power: {p}"),
        ),
        DenseAppendOnlyFixedSizeTree(c, h, _) => (
            format!("DenseAppendOnlyFixedSizeTree(count: {c}, height: {h}"),
            format!("dense_tree: count: {c} height: {h}"),
        ),
    };
    let d = match f {
        None => d + ")",
        Some(f) => d + &format!(", flags: {f:?})"),
    };
    let v = match f {
        // A reference is shown without its flags.
        Some(f) if !f.is_empty() && !matches!(e, Reference(..)) => v + &shown(f),
        _ => v,
    };
    (d, v)
}

fn elements_shown(ctx: &Ctx) {
    let mut all = crate::element::family(ctx.pick(false, true));
    for b in 0..=255u8 {
        all.push(Element::Item(vec![b'a', b], None));
        all.push(Element::ItemWithSumItem(vec![b], 3, Some(vec![b])));
    }
    // references over every byte, and long ones
    {
        use ReferencePathType::*;
        let mut paths: Vec<Vec<Vec<u8>>> = (0..=255u8).map(|b| vec![vec![b'k', b]]).collect();
        paths.extend((0..=255u8).map(|b| vec![vec![b], vec![], vec![b, b'_', b'z']]));
        paths.push((0..60u8).map(|i| vec![i, i + 40]).collect());
        paths.push(vec![vec![b'w'; 400], vec![7; 300]]);
        paths.push(vec![b"a".to_vec(); 300]);
        for p in paths {
            let mut refs = vec![
                CousinReference(p[0].clone()),
                SiblingReference(p[0].clone()),
                AbsolutePathReference(p.clone()),
                RemovedCousinReference(p.clone()),
            ];
            for n in [0, 1, 100, 255] {
                refs.push(UpstreamRootHeightReference(n, p.clone()));
                refs.push(UpstreamRootHeightWithParentPathAdditionReference(n, p.clone()));
                refs.push(UpstreamFromElementHeightReference(n, p.clone()));
            }
            all.extend(refs.into_iter().map(|r| Element::Reference(r, Some(200), None)));
        }
        for n in [34, 300, 5000] {
            for b in [b'a', 0xff] {
                all.push(Element::Item(vec![b; n], Some(vec![b; n])));
                all.push(Element::Tree(Some(vec![b; n]), None));
            }
        }
    }
    ctx.bound(format!(
        "{} elements of every kind, items of every byte, references over every byte and up to 300 segments, as Display and Debug show them",
        all.len()
    ));
    ctx.par(&all, |e| {
        ctx.case(
            || format!("element {}", kit::hex(format!("{e:?}").as_bytes())),
            || {
                ctx.step();
                let (d, v) = element_model(e);
                ctx.state(d.as_bytes());
                ensure_eq!(e.to_string(), d, "Display");
                ensure_eq!(format!("{e:?}"), v, "Debug");
                if let Element::Reference(r, ..) = e {
                    let (d, v) = reference_model(r);
                    ensure_eq!(r.to_string(), d, "Display of a reference");
                    ensure_eq!(format!("{r:?}"), v, "Debug of a reference");
                }
                Ok(())
            },
        );
    });
}

fn bytes_shown(b: &[u8]) -> Res {
    let want = shown_model(b);
    let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    let at0 = drawn(0, &want);
    let look = |what: &str, got: Vec<u8>| -> Res {
        ensure!(got == at0, "{} shown by {what} as {}, expected {}", kit::hex(b), text(&got), text(&at0));
        Ok(())
    };
    ensure_eq!(to_hex(b), hex_model(b), "hex of {}", kit::hex(b));
    let mut v = vec![];
    visualize_to_vec(&mut v, b);
    look("visualize_to_vec", v)?;
    let mut v = b"before".to_vec();
    visualize_to_vec(&mut v, &b.to_vec());
    ensure!(v.starts_with(b"before"), "what was in the vector is gone");
    look("Vec::visualize", v[6..].to_vec())?;
    let mut v = vec![];
    visualize_to_vec(&mut v, &Some(&b));
    look("Option::visualize", v)?;
    look("DebugBytes", format!("{:?}", DebugBytes(b.to_vec())).into_bytes())?;
    let list = format!("{:?}", DebugByteVectors(vec![b.to_vec(), vec![], b.to_vec()]));
    let want_list = format!(
        "[ {}, {}, {},  ]",
        text(&at0),
        text(&shown_model(&[])),
        text(&at0)
    );
    ensure_eq!(list, want_list, "list of {}", kit::hex(b));
    for level in 1..=2 {
        let mut out = vec![];
        let mut d = Drawer::new(&mut out);
        for _ in 0..level {
            d.down();
        }
        let d = b.visualize(d).map_err(|e| e.to_string())?;
        drop(d);
        ensure!(out == drawn(level, &want), "{} at level {level}: {}", kit::hex(b), text(&out));
    }
    Ok(())
}

fn drawer(ctx: &Ctx, texts: &[&[u8]], ops: &[usize]) -> Res {
    let mut want = vec![];
    let mut level = 0usize;
    let mut flushed = 0;
    for op in ops {
        match op {
            0..=3 => want.extend(drawn(level, texts[*op])),
            4 => level += 1,
            5 if level == 0 => return Ok(()),
            5 => level -= 1,
            _ => {
                want.push(b'\n');
                flushed += 1;
            }
        }
    }
    for room in (0..=want.len() + 1).rev() {
        ctx.step();
        let (mut out, mut flushes) = (vec![], 0);
        let mut d = Drawer::new(Slow { out: &mut out, room, flushes: &mut flushes });
        let mut failed = false;
        for op in ops {
            let r = match op {
                0..=3 => d.write(texts[*op]),
                4 => {
                    d.down();
                    Ok(())
                }
                5 => {
                    d.up();
                    Ok(())
                }
                _ => d.flush(),
            };
            if r.is_err() {
                failed = true;
                break;
            }
        }
        drop(d);
        if room > want.len() {
            ensure!(!failed, "{ops:?} fails without a reason");
            ensure!(out == want, "{ops:?} drew {:?}, expected {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&want));
            ensure_eq!(flushes, flushed, "flushes in {ops:?}");
        } else {
            ensure!(failed || room == want.len(), "{ops:?} hides that the writer failed after {room} bytes");
            ensure!(out == want[..out.len()], "{ops:?} drew something else before the writer failed");
            ensure!(failed || out == want, "{ops:?} is cut off");
        }
    }
    Ok(())
}

// -------------------------------------------------------------------- C22

#[derive(Debug)]
enum E {
    Version(GroveVersionError),
}
impl From<GroveVersionError> for E {
    fn from(e: GroveVersionError) -> Self {
        E::Version(e)
    }
}

fn spent() -> OperationCost {
    OperationCost { seek_count: 7, hash_node_calls: 3, ..Default::default() }
}

fn m0(v: u16) -> Result<u16, E> {
    check_grovedb_v0!("m0", v);
    Ok(v)
}
fn m0_cost(v: u16) -> CostResult<u16, E> {
    check_grovedb_v0_with_cost!("m0_cost", v);
    CostContext { value: Ok(v), cost: spent() }
}
fn m01(v: u16) -> Result<u16, E> {
    let used = check_grovedb_v0_or_v1!("m01", v);
    Ok(used)
}
fn m01_cost(v: u16) -> CostResult<u16, E> {
    check_grovedb_v0_or_v1_with_cost!("m01_cost", v);
    CostContext { value: Ok(v), cost: spent() }
}
fn k0(v: u16) -> Result<u16, E> {
    check_merk_v0!("k0", v);
    Ok(v)
}
fn k0_cost(v: u16) -> CostResult<u16, E> {
    check_merk_v0_with_cost!("k0_cost", v);
    CostContext { value: Ok(v), cost: spent() }
}

struct Sixteen(u16);
impl TryFrom<u32> for Sixteen {
    type Error = String;
    fn try_from(v: u32) -> Result<Self, String> {
        u16::try_from(v).map(Sixteen).map_err(|_| format!("{v} is too much"))
    }
}

fn c22(ctx: &Ctx) {
    ctx.bound("each version check with all 65536 version numbers; all pairs of supported versions; conversions at the boundaries; each method of the element and proof code with all 65536 values of its version");
    let parts: Vec<u16> = (0..256).collect();
    ctx.par(&parts, |hi| {
        ctx.case(
            || format!("versions {}..", hi << 8),
            || (0..256u16).try_for_each(|lo| version(ctx, hi << 8 | lo)),
        );
    });
    ctx.case(
        || "supported versions".into(),
        || {
            ensure!(GROVE_VERSIONS.len() >= 3, "versions disappeared");
            ensure!(numbers(GroveVersion::latest()).len() > 100, "the tables cannot be read");
            for (i, v) in GROVE_VERSIONS.iter().enumerate() {
                ensure_eq!(v.protocol_version, i as u32 + 1, "protocol version");
                for w in &GROVE_VERSIONS[i + 1..] {
                    ensure!(v.protocol_version < w.protocol_version, "order of the versions");
                    // a method's version never goes back
                    for (a, b) in numbers(v).iter().zip(numbers(w)) {
                        ensure_eq!(a.0, b.0, "fields");
                        ensure!(a.1 <= b.1, "{} goes from {} back to {}", a.0, a.1, b.1);
                    }
                }
            }
            let same = |a: &GroveVersion, b: &GroveVersion| format!("{a:?}") == format!("{b:?}");
            ensure!(same(GroveVersion::first(), &GROVE_VERSIONS[0]), "first");
            ensure!(same(GroveVersion::latest(), &GROVE_VERSIONS[GROVE_VERSIONS.len() - 1]), "latest");
            Ok(())
        },
    );
    for v in GROVE_VERSIONS {
        ctx.case(
            || format!("conversions in version {}", v.protocol_version),
            || {
                for n in [0u32, 1, 65535, 65536, u32::MAX] {
                    ctx.step();
                    let a = Sixteen::try_from_versioned(n, v).map(|s| s.0);
                    ensure_eq!(a, Sixteen::try_from(n).map(|s| s.0), "try_from_versioned({n})");
                    let b: Result<Sixteen, String> = n.try_into_versioned(v);
                    ensure_eq!(b.map(|s| s.0), a, "try_into_versioned({n})");
                }
                Ok(())
            },
        );
    }
    methods(ctx);
}

/// Every number in the tables of a version, with the path to it.
fn numbers(v: &GroveVersion) -> Vec<(String, u64)> {
    let text = format!("{:#?}", (&v.grovedb_versions, &v.merk_versions));
    let mut path: Vec<String> = vec![];
    let mut out = vec![];
    for line in text.lines() {
        let line = line.trim();
        if line.ends_with('{') || line.ends_with('(') {
            path.push(line.split(':').next().unwrap_or("").to_string());
        } else if line.starts_with('}') || line.starts_with(')') {
            path.pop();
        } else if let Some((name, n)) = line.trim_end_matches(',').split_once(": ") {
            if let Ok(n) = n.parse() {
                out.push((format!("{}.{name}", path.join(".")), n));
            }
        }
    }
    out
}

fn refused(r: Result<u16, E>, v: u16, name: &str, known: &[u16]) -> Res {
    let m = match r {
        Ok(n) => {
            ensure!(known.contains(&v), "{name} accepts version {v}");
            ensure_eq!(n, v, "{name} gives another version");
            return Ok(());
        }
        Err(E::Version(e)) => e,
    };
    ensure!(!known.contains(&v), "{name} refuses version {v}");
    let text = m.to_string();
    match m {
        GroveVersionError::UnknownVersionMismatch { method, known_versions, received } => {
            ensure_eq!(method, name, "method in the error");
            ensure_eq!(known_versions, known, "known versions in the error");
            ensure_eq!(received, v, "received version in the error");
        }
        e => return Err(format!("{name} fails with {e}")),
    }
    ensure!(
        text.contains(name) && text.contains(&v.to_string()) && text.contains(&format!("{known:?}")),
        "error is shown as {text}"
    );
    Ok(())
}

fn version(ctx: &Ctx, v: u16) -> Res {
    ctx.steps(6);
    ctx.state(&v.to_be_bytes());
    refused(m0(v), v, "m0", &[0])?;
    refused(m01(v), v, "m01", &[0, 1])?;
    refused(k0(v), v, "k0", &[0])?;
    for (r, name, known) in [
        (m0_cost(v), "m0_cost", &[0][..]),
        (m01_cost(v), "m01_cost", &[0, 1]),
        (k0_cost(v), "k0_cost", &[0]),
    ] {
        let CostContext { value, cost } = r;
        let want = if known.contains(&v) { spent() } else { OperationCost::default() };
        ensure_eq!(cost, want, "cost of {name} with version {v}");
        refused(value, v, name, known)?;
    }
    Ok(())
}

/// The methods that need no database.
fn methods(ctx: &Ctx) {
    let e = Element::new_item_with_flags(b"value".to_vec(), Some(vec![1, 2]));
    let r = Element::new_reference(ReferencePathType::SiblingReference(b"k".to_vec()));
    let base = GroveVersion::latest();
    let bytes = e.serialize(base).expect("serializes");
    // every one: how to set its version, and what it does (Err: refused)
    type Set = fn(&mut GroveVersion, u16);
    type Run<'a> = Box<dyn Fn(&GroveVersion) -> Result<String, String> + Sync + 'a>;
    let list: Vec<(&str, Set, Run)> = vec![
        (
            "serialize",
            |v, n| v.grovedb_versions.element.serialize = n,
            Box::new(|v| e.serialize(v).map(|b| kit::hex(&b)).map_err(|e| e.to_string())),
        ),
        (
            "serialized_size",
            |v, n| v.grovedb_versions.element.serialized_size = n,
            Box::new(|v| e.serialized_size(v).map(|b| b.to_string()).map_err(|e| e.to_string())),
        ),
        (
            "deserialize",
            |v, n| v.grovedb_versions.element.deserialize = n,
            Box::new(|v| Element::deserialize(&bytes, v).map(|b| format!("{b:?}")).map_err(|e| e.to_string())),
        ),
        (
            "serialize (reference)",
            |v, n| v.grovedb_versions.element.serialize = n,
            Box::new(|v| r.serialize(v).map(|b| kit::hex(&b)).map_err(|e| e.to_string())),
        ),
    ];
    for (name, set, run) in &list {
        ctx.case(
            || format!("method {name}"),
            || {
                let want = run(base).map_err(|e| format!("refused in the latest version: {e}"))?;
                for v in GROVE_VERSIONS {
                    ensure_eq!(run(v), Ok(want.clone()), "{name} in version {}", v.protocol_version);
                }
                for n in 0..=u16::MAX {
                    ctx.step();
                    let mut v = base.clone();
                    set(&mut v, n);
                    match run(&v) {
                        Ok(got) => ensure!(n == 0 && got == want, "{name} runs in its unknown version {n}"),
                        Err(e) => ensure!(n != 0 && e.contains(&n.to_string()), "{name} fails in its version {n} with {e}"),
                    }
                }
                Ok(())
            },
        );
    }
}

// -------------------------------------------------------------------- C23

fn c23(ctx: &Ctx) {
    let keys: Vec<Vec<u8>> = vec![vec![], vec![0], b"key".to_vec(), vec![0xff, 0xfe], (0..=255).collect()];
    let flags: Vec<Option<Vec<u8>>> = std::iter::once(None).chain(keys.iter().cloned().map(Some)).collect();
    let paths: Vec<dbg::Path> = vec![vec![], vec![vec![]], vec![b"a".to_vec(), vec![0xff]], keys.clone()];
    let i64s = [0, 1, -1, i64::MIN, i64::MAX];
    let u64s = [0, 1, 1 << 53, (1 << 53) + 1, u64::MAX];
    let i128s = [0, -1, i128::MIN, i128::MAX, u64::MAX as i128 + 1];
    let u32s = [0, 1, u32::MAX];
    let mut refs = vec![];
    for f in &flags {
        for p in &paths {
            let (path, path_append, swap_parent) = (p.clone(), p.clone(), p.clone());
            refs.push(dbg::Reference::AbsolutePathReference { path, element_flags: f.clone() });
            refs.push(dbg::Reference::RemovedCousinReference { swap_parent, element_flags: f.clone() });
            for n in u32s {
                let (path_append, element_flags) = (path_append.clone(), f.clone());
                refs.push(dbg::Reference::UpstreamRootHeightReference {
                    n_keep: n,
                    path_append: path_append.clone(),
                    element_flags: element_flags.clone(),
                });
                refs.push(dbg::Reference::UpstreamRootHeightWithParentPathAdditionReference {
                    n_keep: n,
                    path_append: path_append.clone(),
                    element_flags: element_flags.clone(),
                });
                refs.push(dbg::Reference::UpstreamFromElementHeightReference { n_remove: n, path_append, element_flags });
            }
        }
        for k in &keys {
            refs.push(dbg::Reference::CousinReference { swap_parent: k.clone(), element_flags: f.clone() });
            refs.push(dbg::Reference::SiblingReference { sibling_key: k.clone(), element_flags: f.clone() });
        }
    }
    let mut elements: Vec<dbg::Element> = refs.into_iter().map(dbg::Element::Reference).collect();
    for f in &flags {
        let element_flags = f.clone();
        for rk in &flags {
            let (root_key, element_flags) = (rk.clone(), element_flags.clone());
            elements.push(dbg::Element::Subtree { root_key: root_key.clone(), element_flags: element_flags.clone() });
            for sum in i64s {
                elements.push(dbg::Element::Sumtree { root_key: root_key.clone(), sum, element_flags: element_flags.clone() });
                for count in u64s {
                    elements.push(dbg::Element::CountSumTree { root_key: root_key.clone(), count, sum, element_flags: element_flags.clone() });
                    elements.push(dbg::Element::ProvableCountSumTree { root_key: root_key.clone(), count, sum, element_flags: element_flags.clone() });
                }
            }
            for sum in i128s {
                elements.push(dbg::Element::BigSumTree { root_key: root_key.clone(), sum, element_flags: element_flags.clone() });
            }
            for count in u64s {
                elements.push(dbg::Element::CountTree { root_key: root_key.clone(), count, element_flags: element_flags.clone() });
                elements.push(dbg::Element::ProvableCountTree { root_key: root_key.clone(), count, element_flags: element_flags.clone() });
            }
        }
        for k in &keys {
            elements.push(dbg::Element::Item { value: k.clone(), element_flags: element_flags.clone() });
            for n in i64s {
                elements.push(dbg::Element::ItemWithSumItem { value: k.clone(), sum_item_value: n, element_flags: element_flags.clone() });
            }
        }
        for n in i64s {
            elements.push(dbg::Element::SumItem { value: n, element_flags: element_flags.clone() });
        }
    }
    let mut features = vec![dbg::TreeFeatureType::BasicMerkNode];
    features.extend(i64s.map(dbg::TreeFeatureType::SummedMerkNode));
    features.extend(i128s.map(dbg::TreeFeatureType::BigSummedMerkNode));
    features.extend(u64s.map(dbg::TreeFeatureType::CountedMerkNode));
    features.extend(u64s.map(dbg::TreeFeatureType::ProvableCountedMerkNode));
    for c in u64s {
        features.extend(i64s.map(|s| dbg::TreeFeatureType::CountedSummedMerkNode(c, s)));
        features.extend(i64s.map(|s| dbg::TreeFeatureType::ProvableCountedSummedMerkNode(c, s)));
    }
    let mut hash = [0u8; 32];
    for (i, b) in hash.iter_mut().enumerate() {
        *b = 255 - i as u8;
    }
    let mut items = vec![dbg::QueryItem::RangeFull];
    for a in &keys {
        let a = a.clone();
        items.push(dbg::QueryItem::Key(a.clone()));
        items.push(dbg::QueryItem::RangeFrom(a.clone()));
        items.push(dbg::QueryItem::RangeTo(a.clone()));
        items.push(dbg::QueryItem::RangeToInclusive(a.clone()));
        items.push(dbg::QueryItem::RangeAfter(a.clone()));
        for b in &keys {
            let (a, b) = (a.clone(), b.clone());
            items.push(dbg::QueryItem::Range { start: a.clone(), end: b.clone() });
            items.push(dbg::QueryItem::RangeInclusive { start: a.clone(), end: b.clone() });
            items.push(dbg::QueryItem::RangeAfterTo { after: a.clone(), to: b.clone() });
            items.push(dbg::QueryItem::RangeAfterToInclusive { after: a, to: b });
        }
    }
    let branch = |p: Option<Vec<Vec<u8>>>, q: Option<dbg::Query>| dbg::SubqueryBranch { subquery_path: p, subquery: q.map(Box::new) };
    let leaf = dbg::Query {
        items: items[..3].to_vec(),
        default_subquery_branch: branch(None, None),
        conditional_subquery_branches: vec![],
        left_to_right: false,
    };
    let mut queries = vec![];
    for sub in [None, Some(leaf.clone())] {
        for p in [None, Some(vec![]), Some(keys.clone())] {
            for conds in [vec![], vec![(items[1].clone(), branch(Some(vec![b"p".to_vec()]), Some(leaf.clone()))), (items[0].clone(), branch(None, None))]] {
                for left_to_right in [true, false] {
                    for its in [vec![], items.clone()] {
                        for limit in [None, Some(0), Some(u16::MAX)] {
                            for path in &paths {
                                queries.push(dbg::PathQuery {
                                    path: path.clone(),
                                    query: dbg::SizedQuery {
                                        query: dbg::Query {
                                            items: its.clone(),
                                            default_subquery_branch: branch(p.clone(), sub.clone()),
                                            conditional_subquery_branches: conds.clone(),
                                            left_to_right,
                                        },
                                        limit,
                                        offset: limit.map(|l| l ^ 1),
                                    },
                                });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.bound(format!(
        "{} elements and references, {} feature types, {} query items, {} queries, {} keys in proofs and updates: written as JSON and read back, and all distinct",
        elements.len(), features.len(), items.len(), queries.len(), keys.len()
    ));
    all(ctx, "element", &elements);
    all(ctx, "feature type", &features);
    all(ctx, "query item", &items);
    all(ctx, "query", &queries);
    let mut nodes = vec![dbg::MerkProofNode::Hash(hash), dbg::MerkProofNode::KVHash(hash)];
    for k in &keys {
        nodes.push(dbg::MerkProofNode::KVDigest(k.clone(), hash));
        for e in elements.iter().step_by(97) {
            nodes.push(dbg::MerkProofNode::KV(k.clone(), e.clone()));
            nodes.push(dbg::MerkProofNode::KVValueHash(k.clone(), e.clone(), hash));
            nodes.push(dbg::MerkProofNode::KVRefValueHash(k.clone(), e.clone(), hash));
            for f in &features {
                nodes.push(dbg::MerkProofNode::KVValueHashFeatureType(k.clone(), e.clone(), hash, f.clone()));
            }
        }
    }
    all(ctx, "node", &nodes);
    let mut proofs = vec![];
    for n in nodes.iter().step_by(53) {
        for decrease in [true, false] {
            let ops = vec![
                dbg::MerkProofOp::Push(n.clone()),
                dbg::MerkProofOp::PushInverted(n.clone()),
                dbg::MerkProofOp::Parent,
                dbg::MerkProofOp::Child,
                dbg::MerkProofOp::ParentInverted,
                dbg::MerkProofOp::ChildInverted,
            ];
            for lower in 0..4 {
                let layer = |ops: &[dbg::MerkProofOp]| dbg::ProofLayer { merk_proof: ops.to_vec(), lower_layers: BTreeMap::new() };
                let mut root = layer(&ops);
                for k in keys.iter().take(lower) {
                    let mut l = layer(&ops[..lower]);
                    l.lower_layers.insert(k.clone(), layer(&[]));
                    root.lower_layers.insert(k.clone(), l);
                }
                proofs.push(dbg::Proof { root_layer: root, prove_options: dbg::ProveOptions { decrease_limit_on_empty_sub_query_result: decrease } });
            }
        }
    }
    all(ctx, "proof", &proofs);
    let mut updates = vec![];
    for l in &flags {
        for r in &flags {
            for h in [None, Some(hash)] {
                for p in &paths {
                    for k in &keys {
                        updates.push(dbg::NodeUpdate {
                            left_child: l.clone(),
                            left_merk_hash: h,
                            right_child: r.clone(),
                            right_merk_hash: h.map(|mut h| {
                                h[0] ^= 1;
                                h
                            }),
                            path: p.clone(),
                            key: k.clone(),
                            element: elements[updates.len() % elements.len()].clone(),
                            feature_type: features[updates.len() % features.len()].clone(),
                            value_hash: hash,
                            kv_digest_hash: [3; 32],
                        });
                    }
                }
            }
        }
    }
    all(ctx, "node update", &updates);
    let mut requests = vec![];
    for session_id in u64s {
        for p in &paths {
            for k in &keys {
                requests.push(dbg::WithSession { session_id, request: dbg::NodeFetchRequest { path: p.clone(), key: k.clone() } });
            }
        }
    }
    all(ctx, "request", &requests);
    all(ctx, "session", &u64s.map(|session_id| dbg::NewSessionResponse { session_id }));
    all(ctx, "end of session", &u64s.map(|session_id| dbg::DropSessionRequest { session_id }));
    all(ctx, "root request", &u64s.map(|session_id| dbg::WithSession { session_id, request: dbg::RootFetchRequest }));
}

fn all<T>(ctx: &Ctx, what: &str, list: &[T])
where
    T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug + Sync,
{
    ctx.case(
        || format!("every {what}"),
        || {
            let mut seen: std::collections::HashMap<String, usize> = Default::default();
            for (i, x) in list.iter().enumerate() {
                ctx.step();
                let s = serde_json::to_string(x).map_err(|e| format!("{x:?} cannot be written: {e}"))?;
                let y: T = serde_json::from_str(&s).map_err(|e| format!("{x:?}, written as {s}, cannot be read: {e}"))?;
                ensure!(&y == x, "{x:?}, written as {s}, is read as {y:?}");
                if let Some(j) = seen.insert(s, i) {
                    ensure!(list[j] == *x, "{x:?} is written like {:?}", list[j]);
                }
                ctx.state(format!("{what}{i}").as_bytes());
            }
            Ok(())
        },
    );
}
