//! Generators: byte strings chosen to collide, nest and straddle the block and
//! line boundaries of the storage format.

use crate::engine::Case;
use crate::model::{Assoc, Val};
use crate::rt::splitmix;
use std::collections::BTreeSet;

/// Lengths around: empty, one block (16, minus the type prefix), two blocks,
/// one line (80), the length byte (255) and larger.
fn length(c: &mut Case) -> usize {
    match c.weighted(&[6, 2, 3, 3, 2, 1, 1]) {
        0 => c.range(1, 6) as usize,
        1 => c.below(2) as usize,
        2 => c.range(13, 18) as usize,
        3 => c.range(29, 34) as usize,
        4 => c.range(76, 84) as usize,
        5 => c.range(252, 260) as usize,
        _ => *c.pick(&[47, 48, 63, 64, 111, 112, 127, 159, 160, 239, 240, 400, 1000]),
    }
}

pub fn bytes(c: &mut Case, others: &[Vec<u8>]) -> Vec<u8> {
    let k = if others.is_empty() { 0 } else { 4 };
    match c.weighted(&[8, 4, k, k, k / 2, k / 2, k / 4]) {
        0 => {
            let n = length(c);
            let mut s = c.below(1 << 16);
            (0..n)
                .map(|_| {
                    s = splitmix(s);
                    s as u8
                })
                .collect()
        }
        1 => {
            let n = length(c);
            let b = *c.pick(&[0u8, b'a', 0xff, b'w', b'l', 16, 1]);
            vec![b; n]
        }
        // A sibling: another string, one byte longer.
        2 => {
            let mut v = c.pick(others).clone();
            let b = *c.pick(&[0u8, b'w', b'l', 0xff, b'x']);
            if c.chance(1, 3) {
                v.insert(0, b);
            } else {
                v.push(b);
            }
            v
        }
        // A prefix of another string.
        3 => {
            let v = c.pick(others).clone();
            let n = c.idx(v.len() + 1);
            v[..n].to_vec()
        }
        // The concatenation of two.
        4 => {
            let mut v = c.pick(others).clone();
            let w = c.pick(others).clone();
            v.extend(w);
            v.truncate(2000);
            v
        }
        6 => {
            let v = c.pick(others).clone();
            alike(c, &v)
        }
        // One bit away.
        _ => {
            let mut v = c.pick(others).clone();
            if v.is_empty() {
                v.push(1);
            } else {
                let i = c.idx(v.len());
                let b = c.below(8);
                v[i] ^= 1 << b;
            }
            v
        }
    }
}

/// Other bytes of the same length that a checksum, a prefix or a set of bytes
/// cannot tell from the given ones.
pub fn alike(c: &mut Case, v: &[u8]) -> Vec<u8> {
    let mut x = v.to_vec();
    if x.len() < 2 {
        x.push(0);
        return x;
    }
    let n = x.len();
    let (i, j) = (c.idx(n), c.idx(n));
    let (i, j) = if i == j { (0, n - 1) } else { (i, j) };
    match c.below(9) {
        0 => x.swap(i, j),
        1 => x.reverse(),
        2 => x.rotate_left(1),
        3 => x.rotate_left(n / 2),
        // Same sum.
        4 => {
            x[i] = x[i].wrapping_add(1);
            x[j] = x[j].wrapping_sub(1);
        }
        // Same exclusive or.
        5 => {
            let b = 1 << c.below(8);
            x[i] ^= b;
            x[j] ^= b;
        }
        // Same first half.
        6 => x[n - 1] = !x[n - 1],
        // Same last half.
        7 => x[0] = !x[0],
        // Same low bits.
        _ => x[i] ^= 0x80,
    }
    if x == v {
        x[n - 1] ^= 1;
    }
    x
}

/// Another key, close to this one.
pub fn near_key(c: &mut Case, k: &[u8; 16]) -> [u8; 16] {
    alike(c, k).try_into().expect("16 bytes")
}

pub fn distinct(c: &mut Case, n: usize, others: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = Vec::new();
    for i in 0..n {
        let mut ctx = others.to_vec();
        ctx.extend(out.iter().cloned());
        let mut v = bytes(c, &ctx);
        while out.contains(&v) {
            v.push(i as u8);
        }
        out.push(v);
    }
    out
}

/// A long string: around the sizes at which counters and buffers wrap.
pub fn large(c: &mut Case) -> Vec<u8> {
    let base = *c.pick(&[1024usize, 4080, 4096, 8192, 1280, 20_480, 32_768, 65_536, 100_000]);
    let n = base + c.idx(5) - 2;
    if c.chance(1, 2) {
        vec![*c.pick(&[0u8, b'w', 0xff]); n]
    } else {
        let mut s = c.below(1 << 16);
        (0..n)
            .map(|_| {
                s = splitmix(s);
                s as u8
            })
            .collect()
    }
}

pub struct Pool {
    pub kws: Vec<Vec<u8>>,
    pub data: Vec<Vec<u8>>,
}

impl Pool {
    pub fn new(c: &mut Case, max_kw: u64, max_data: u64) -> Self {
        let nk = c.range(1, max_kw) as usize;
        let kws = distinct(c, nk, &[]);
        let nd = c.range(1, max_data) as usize;
        let mut data = distinct(c, nd, &kws);
        // Data equal to a keyword, byte for byte.
        if c.chance(1, 4) {
            let i = c.idx(data.len());
            let k = c.pick(&kws).clone();
            if !data.contains(&k) {
                data[i] = k;
            }
        }
        let mut pool = Pool { kws, data };
        // Once in a while a long data or keyword.
        if c.chance(1, 40) {
            let v = large(c);
            c.label("long data or keyword");
            let l = if c.chance(2, 3) { &mut pool.data } else { &mut pool.kws };
            let i = c.idx(l.len());
            l[i] = v;
        }
        pool
    }

    /// Short values only: used where the content does not matter.
    pub fn simple(c: &mut Case, max_kw: u64, max_data: u64) -> Self {
        let nk = c.range(1, max_kw) as usize;
        let nd = c.range(1, max_data) as usize;
        Pool {
            kws: (0..nk).map(|i| format!("kw{i}").into_bytes()).collect(),
            data: (0..nd).map(|i| format!("data{i}").into_bytes()).collect(),
        }
    }

    pub fn val(&self, c: &mut Case) -> Val {
        if c.chance(1, 4) {
            Val::P(c.pick(&self.kws).clone())
        } else {
            Val::D(c.pick(&self.data).clone())
        }
    }

    /// Associations of one call: values to the keywords they are indexed under.
    pub fn assoc(&self, c: &mut Case) -> Assoc {
        let n = c.weighted(&[6, 3, 2, 2, 1, 1]) + 1;
        let mut a = Assoc::new();
        for _ in 0..n {
            let v = self.val(c);
            let m = c.weighted(&[6, 2, 1]) + 1;
            let ks: BTreeSet<Vec<u8>> = (0..m).map(|_| c.pick(&self.kws).clone()).collect();
            a.entry(v).or_default().extend(ks);
        }
        // Once in a while many values under one keyword: many lines.
        if c.chance(1, 60) {
            let n = *c.pick(&[6usize, 17, 40, 81, 130, 260, 700]);
            c.label("many values in one call");
            let k = self.kws.iter().min_by_key(|k| k.len()).expect("a keyword").clone();
            let n = if k.len() > 500 { 1 } else { n };
            for i in 0..n {
                a.entry(Val::D(format!("bulk{i}").into_bytes())).or_default().insert(k.clone());
            }
        }
        a
    }

    pub fn some_kws(&self, c: &mut Case) -> BTreeSet<Vec<u8>> {
        let n = c.range(1, 3);
        (0..n).map(|_| c.pick(&self.kws).clone()).collect()
    }
}

pub fn label(c: &mut Case) -> Vec<u8> {
    match c.weighted(&[4, 1, 2]) {
        0 => format!("label {}", c.below(1000)).into_bytes(),
        1 => Vec::new(),
        _ => bytes(c, &[]),
    }
}

pub fn key(c: &mut Case) -> [u8; 16] {
    if !c.plain_keys && c.chance(1, 24) {
        // Keys one could take for something else.
        return match c.below(4) {
            0 => [0; 16],
            1 => [0xff; 16],
            2 => [c.below(256) as u8; 16],
            _ => std::array::from_fn(|i| i as u8),
        };
    }
    let mut k = [0u8; 16];
    let mut s = c.below(1 << 32) ^ c.salt << 32;
    for b in &mut k {
        s = splitmix(s);
        *b = s as u8;
    }
    k
}
