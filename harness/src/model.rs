//! Reference model of an index: what the history of calls implies.

use std::collections::{BTreeMap, BTreeSet};

pub type Bytes = Vec<u8>;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    /// Data.
    D(Bytes),
    /// Pointer to a keyword.
    P(Bytes),
}

impl Val {
    /// Number of 16-byte blocks needed to store the value.
    pub fn blocks(&self) -> usize {
        let n = match self {
            Val::D(b) | Val::P(b) => b.len() + 1,
        };
        n / 16 + 1
    }
}

pub fn lines<'a>(vals: impl Iterator<Item = &'a Val>) -> usize {
    let b: usize = vals.map(Val::blocks).sum();
    (b + 4) / 5
}

/// Associations of one call: value -> keywords.
pub type Assoc = BTreeMap<Val, BTreeSet<Bytes>>;

/// Per keyword view of an association map.
pub fn by_keyword(a: &Assoc) -> BTreeMap<Bytes, BTreeSet<Val>> {
    let mut m: BTreeMap<Bytes, BTreeSet<Val>> = BTreeMap::new();
    for (v, ks) in a {
        for k in ks {
            m.entry(k.clone()).or_default().insert(v.clone());
        }
    }
    m
}

#[derive(Debug, Clone, Default, PartialEq, Eq)]
pub struct Model {
    /// Keyword -> values; a keyword may be present with no value left.
    pub kws: BTreeMap<Bytes, BTreeSet<Val>>,
    /// Keyword -> chain lines in use.
    pub lines: BTreeMap<Bytes, usize>,
}

impl Model {
    /// Applies an addition or a deletion; returns the new keywords.
    pub fn apply(&mut self, add: bool, a: &Assoc) -> BTreeSet<Bytes> {
        let mut new = BTreeSet::new();
        for (k, vals) in by_keyword(a) {
            if !self.kws.contains_key(&k) {
                new.insert(k.clone());
            }
            let n = lines(vals.iter());
            *self.lines.entry(k.clone()).or_default() += n;
            let e = self.kws.entry(k).or_default();
            for v in vals {
                if add {
                    e.insert(v);
                } else {
                    e.remove(&v);
                }
            }
        }
        new
    }

    /// Data reachable from each searched keyword.
    pub fn search(&self, roots: &BTreeSet<Bytes>) -> BTreeMap<Bytes, BTreeSet<Bytes>> {
        roots.iter().map(|r| (r.clone(), reach(&self.kws, r))).collect()
    }

    /// Full compaction keeping the given data.
    pub fn compact(&mut self, keep: impl Fn(&Bytes) -> bool) {
        for vals in self.kws.values_mut() {
            vals.retain(|v| match v {
                Val::D(d) => keep(d),
                Val::P(_) => true,
            });
        }
        self.kws.retain(|_, v| !v.is_empty());
        self.lines = self.kws.iter().map(|(k, v)| (k.clone(), lines(v.iter()))).collect();
    }

    pub fn total_lines(&self) -> usize {
        self.lines.values().sum()
    }
}

/// Data reachable from `root` by following pointers.
pub fn reach(kws: &BTreeMap<Bytes, BTreeSet<Val>>, root: &Bytes) -> BTreeSet<Bytes> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![root];
    let mut out = BTreeSet::new();
    while let Some(k) = todo.pop() {
        if !seen.insert(k) {
            continue;
        }
        for v in kws.get(k).into_iter().flatten() {
            match v {
                Val::D(d) => {
                    out.insert(d.clone());
                }
                Val::P(p) => todo.push(p),
            }
        }
    }
    out
}

/// Breadth-first distance of the indexed keywords from the roots.
pub fn distances(kws: &BTreeMap<Bytes, BTreeSet<Val>>, roots: &BTreeSet<Bytes>) -> BTreeMap<Bytes, usize> {
    let mut dist: BTreeMap<Bytes, usize> = BTreeMap::new();
    let mut level: BTreeSet<Bytes> = roots.clone();
    let mut d = 0;
    while !level.is_empty() {
        let mut next = BTreeSet::new();
        for k in level {
            if dist.contains_key(&k) {
                continue;
            }
            if let Some(vals) = kws.get(&k) {
                dist.insert(k, d);
                for v in vals {
                    if let Val::P(p) = v {
                        next.insert(p.clone());
                    }
                }
            }
        }
        level = next;
        d += 1;
    }
    dist
}

/// Short rendering of a byte string.
pub fn show(b: &[u8]) -> String {
    let printable = b.iter().all(|c| (0x20..0x7f).contains(c));
    if printable && b.len() <= 24 {
        format!("'{}'", String::from_utf8_lossy(b))
    } else if b.len() <= 8 {
        format!("x{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>())
    } else {
        let uniform = b.iter().all(|x| *x == b[0]);
        let head: String = b[..4].iter().map(|x| format!("{x:02x}")).collect();
        let h = b.iter().fold(7u64, |h, x| crate::rt::splitmix(h ^ u64::from(*x)));
        if uniform {
            format!("x{:02x}*{}", b[0], b.len())
        } else {
            format!("x{head}..#{:04x}({}B)", h & 0xffff, b.len())
        }
    }
}

pub fn show_val(v: &Val) -> String {
    match v {
        Val::D(d) => show(d),
        Val::P(p) => format!("->{}", show(p)),
    }
}

pub fn show_assoc(a: &Assoc) -> String {
    let parts: Vec<String> = a
        .iter()
        .map(|(v, ks)| {
            format!("{}@[{}]", show_val(v), ks.iter().map(|k| show(k)).collect::<Vec<_>>().join(","))
        })
        .collect();
    parts.join(" ")
}

pub fn show_set(s: &BTreeSet<Bytes>) -> String {
    format!("{{{}}}", s.iter().map(|x| show(x)).collect::<Vec<_>>().join(","))
}

pub fn show_res(m: &BTreeMap<Bytes, BTreeSet<Bytes>>) -> String {
    m.iter().map(|(k, v)| format!("{}:{}", show(k), show_set(v))).collect::<Vec<_>>().join(" ")
}
