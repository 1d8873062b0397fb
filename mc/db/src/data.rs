//! State roots of the data trees, computed from nothing but the values.
use crate::audit::{Hash, NULL};

fn b3(parts: &[&[u8]]) -> Hash {
    let mut h = blake3::Hasher::new();
    for p in parts {
        h.update(p);
    }
    *h.finalize().as_bytes()
}

fn perfect(leaves: &[Hash]) -> Hash {
    if leaves.len() == 1 {
        leaves[0]
    } else {
        let (l, r) = leaves.split_at(leaves.len() / 2);
        b3(&[&[1], &perfect(l), &perfect(r)])
    }
}

pub fn mmr(vals: &[Vec<u8>]) -> Hash {
    let leaves: Vec<Hash> = vals.iter().map(|v| b3(&[&[0], v])).collect();
    let mut peaks = vec![];
    let mut at = 0;
    for b in (0..32).rev() {
        let s = 1usize << b;
        if leaves.len() & s != 0 {
            peaks.push(perfect(&leaves[at..at + s]));
            at += s;
        }
    }
    let Some(mut acc) = peaks.pop() else {
        return NULL;
    };
    for p in peaks.iter().rev() {
        acc = b3(&[&[1], &acc, p]);
    }
    acc
}

pub fn mmr_size(leaves: u64) -> u64 {
    2 * leaves - leaves.count_ones() as u64
}

pub fn dense(vals: &[Vec<u8>]) -> Hash {
    let n = vals.len();
    let mut h = vec![NULL; n];
    for i in (0..n).rev() {
        let at = |c: usize| if c < n { h[c] } else { NULL };
        h[i] = b3(&[&b3(&[&vals[i]]), &at(2 * i + 1), &at(2 * i + 2)]);
    }
    h.first().copied().unwrap_or(NULL)
}

/// The documented chunk format.
pub fn blob(entries: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![];
    let n = |x: usize| (x as u32).to_be_bytes();
    if entries.iter().all(|e| e.len() == entries[0].len()) {
        b.push(1);
        b.extend(n(entries.len()));
        b.extend(n(entries[0].len()));
        entries.iter().for_each(|e| b.extend(e));
    } else {
        b.push(0);
        for e in entries {
            b.extend(n(e.len()));
            b.extend(e);
        }
    }
    b
}

pub fn bulk(vals: &[Vec<u8>], chunk_power: u8) -> Hash {
    let epoch = 1usize << chunk_power;
    let chunks: Vec<Vec<u8>> = vals.chunks_exact(epoch).map(blob).collect();
    let rest = &vals[vals.len() / epoch * epoch..];
    b3(&[b"bulk_state", &mmr(&chunks), &dense(rest)])
}

pub fn commitment(sinsemilla: &Hash, vals: &[Vec<u8>], chunk_power: u8) -> Hash {
    b3(&[b"ct_state", sinsemilla, &bulk(vals, chunk_power)])
}
