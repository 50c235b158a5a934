//! Independent implementation of the documented storage format
//! (documentation/serialization.md and the whitepaper), used as the oracle for
//! the bytes the library stores and as a second writer.

use crate::db::{value_bytes, Tok};
use crate::world::{CtMap, EtMap};
use aes_gcm::aead::{AeadInPlace, KeyInit};
use aes_gcm::{Aes256Gcm, Nonce};
use cosmian_findex::{EncryptedValue, ENTRY_LENGTH, LINK_LENGTH};
use tiny_keccak::{Hasher, IntoXof, Kmac, Sha3, Shake, Xof};

const ET_INFO: &[u8] = b"Entry Table key derivation info.";
const CT_INFO: &[u8] = b"Chain Table key derivation info.";

pub struct Keys {
    pub mac: [u8; 32],
    pub dem: [u8; 32],
}

fn kdf(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Shake::v256();
    for p in parts {
        h.update(p);
    }
    let mut out = [0; 32];
    h.finalize(&mut out);
    out
}

fn keys(seed: &[u8], info: &[u8]) -> Keys {
    Keys { mac: kdf(&[seed, info, b"KMAC key"]), dem: kdf(&[seed, info, b"DEM key"]) }
}

pub fn et_keys(seed: &[u8; 16]) -> Keys {
    keys(seed, ET_INFO)
}

pub fn ct_keys(seed: &[u8; 16]) -> Keys {
    keys(seed, CT_INFO)
}

fn kmac(key: &[u8], parts: &[&[u8]]) -> Tok {
    let mut m = Kmac::v256(key, b"");
    for p in parts {
        m.update(p);
    }
    let mut out = [0; 32];
    m.into_xof().squeeze(&mut out);
    out
}

pub fn hash(kw: &[u8]) -> [u8; 32] {
    let mut h = Sha3::v256();
    h.update(kw);
    let mut out = [0; 32];
    h.finalize(&mut out);
    out
}

pub fn et_token(k: &Keys, kw: &[u8], label: &[u8]) -> Tok {
    kmac(&k.mac, &[&hash(kw), label])
}

pub fn ct_token(k: &Keys, prev: &[u8]) -> Tok {
    kmac(&k.mac, &[prev, CT_INFO])
}

pub fn open<const L: usize>(k: &Keys, v: &EncryptedValue<L>) -> Option<[u8; L]> {
    let mut out = v.ciphertext;
    let tag: [u8; 16] = v.tag;
    Aes256Gcm::new(&k.dem.into())
        .decrypt_in_place_detached(
            Nonce::from_slice(&v.nonce.0),
            b"",
            &mut out,
            &tag.into(),
        )
        .ok()?;
    Some(out)
}

pub fn seal<const L: usize>(k: &Keys, plain: [u8; L], nonce: [u8; 12]) -> EncryptedValue<L> {
    let mut ct = plain;
    let tag = Aes256Gcm::new(&k.dem.into())
        .encrypt_in_place_detached(Nonce::from_slice(&nonce), b"", &mut ct)
        .expect("encryption");
    let mut bytes = nonce.to_vec();
    bytes.extend_from_slice(&ct);
    bytes.extend_from_slice(&tag);
    EncryptedValue::<L>::try_from(bytes.as_slice()).expect("encrypted value")
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Entry {
    pub last: [u8; 32],
    pub seed: [u8; 16],
    pub hash: [u8; 32],
}

pub fn parse_entry(b: &[u8; ENTRY_LENGTH]) -> Entry {
    Entry {
        last: b[..32].try_into().unwrap(),
        seed: b[32..48].try_into().unwrap(),
        hash: b[48..80].try_into().unwrap(),
    }
}

pub fn entry_bytes(e: &Entry) -> [u8; ENTRY_LENGTH] {
    let mut b = [0; ENTRY_LENGTH];
    b[..32].copy_from_slice(&e.last);
    b[32..48].copy_from_slice(&e.seed);
    b[48..].copy_from_slice(&e.hash);
    b
}

/// Tokens of the chain of an entry, in order; `None` when the last token is not
/// reached after `max` links.
pub fn chain(e: &Entry, max: usize) -> Option<Vec<Tok>> {
    let k = ct_keys(&e.seed);
    let mut out: Vec<Tok> = Vec::new();
    if e.last == [0; 32] {
        return Some(out);
    }
    let mut prev = e.hash;
    while out.len() <= max {
        let t = ct_token(&k, &prev);
        out.push(t);
        if t == e.last {
            return Some(out);
        }
        prev = t;
    }
    None
}

/// Operations stored in one link: blocks of (addition, terminating, bytes).
pub fn parse_link(b: &[u8; LINK_LENGTH]) -> Result<Vec<(bool, bool, Vec<u8>)>, String> {
    let mut out = Vec::new();
    for i in 0..5 {
        let blk = &b[1 + 17 * i..1 + 17 * (i + 1)];
        let add = (b[0] >> i) & 1 == 1;
        let (term, n) = if blk[0] == 255 { (false, 16) } else { (true, blk[0] as usize) };
        if n > 16 {
            return Err(format!("block length byte is {}", blk[0]));
        }
        if blk[1 + n..].iter().any(|x| *x != 0) {
            return Err("padding bytes are not zero".into());
        }
        out.push((add, term, blk[1..1 + n].to_vec()));
    }
    if b[0] >> 5 != 0 {
        return Err("unused flag bits are set".into());
    }
    Ok(out)
}

/// Sequence of (addition, value) stored in a chain.
pub fn parse_chain(links: &[[u8; LINK_LENGTH]]) -> Result<Vec<(bool, Vec<u8>)>, String> {
    let mut out = Vec::new();
    let mut cur: Vec<u8> = Vec::new();
    let mut cur_op: Option<bool> = None;
    for (li, l) in links.iter().enumerate() {
        let blocks = parse_link(l)?;
        for (bi, (add, term, data)) in blocks.iter().enumerate() {
            if cur_op.is_some_and(|o| o != *add) {
                return Err("a value mixes operations".into());
            }
            if *term && data.is_empty() && cur_op.is_none() {
                // Padding: the rest of the line must be padding too.
                if blocks[bi..].iter().any(|(a, t, d)| *a || !*t || !d.is_empty()) {
                    return Err(format!("values after the padding of line {li}"));
                }
                break;
            }
            cur.extend_from_slice(data);
            cur_op = Some(*add);
            if *term {
                out.push((*add, std::mem::take(&mut cur)));
                cur_op = None;
            }
        }
    }
    if cur_op.is_some() {
        return Err("the last value of the chain is not terminated".into());
    }
    Ok(out)
}

/// Packs a sequence of operations as documented.
///
/// Earlier versions (see the committed dataset) ended a value that fills its
/// blocks exactly with a full terminating block rather than an empty one.
pub fn pack_as(mods: &[(bool, Vec<u8>)], earlier: bool) -> Vec<[u8; LINK_LENGTH]> {
    let mut blocks: Vec<(bool, u8, Vec<u8>)> = Vec::new();
    for (add, v) in mods {
        let full = if earlier { v.len().saturating_sub(1) / 16 } else { v.len() / 16 };
        for i in 0..full {
            blocks.push((*add, 255, v[16 * i..16 * (i + 1)].to_vec()));
        }
        let rest = &v[16 * full..];
        blocks.push((*add, rest.len() as u8, rest.to_vec()));
    }
    blocks
        .chunks(5)
        .map(|ch| {
            let mut l = [0u8; LINK_LENGTH];
            for (i, (add, n, d)) in ch.iter().enumerate() {
                if *add {
                    l[0] |= 1 << i;
                }
                l[1 + 17 * i] = *n;
                l[2 + 17 * i..2 + 17 * i + d.len()].copy_from_slice(d);
            }
            l
        })
        .collect()
}

/// Reads the operations stored for a keyword.
pub fn read_keyword(
    et: &EtMap,
    ct: &CtMap,
    key: &[u8; 16],
    label: &[u8],
    kw: &[u8],
) -> Result<Option<(Entry, Vec<Tok>, Vec<(bool, Vec<u8>)>)>, String> {
    let k = et_keys(key);
    let Some(v) = et.get(&et_token(&k, kw, label)) else {
        return Ok(None);
    };
    let e = parse_entry(&open(&k, v).ok_or("cannot decrypt the entry")?);
    if e.hash != hash(kw) {
        return Err("the entry does not hold the keyword hash".into());
    }
    let toks = chain(&e, 100_000).ok_or("the chain does not reach its last token")?;
    let ck = ct_keys(&e.seed);
    let mut links = Vec::new();
    for t in &toks {
        let v = ct.get(t).ok_or("a chain line is missing")?;
        links.push(open(&ck, v).ok_or("cannot decrypt a chain line")?);
    }
    let ops = parse_chain(&links)?;
    Ok(Some((e, toks, ops)))
}

pub struct Nonces(pub u64);

impl Nonces {
    pub fn bytes<const N: usize>(&mut self) -> [u8; N] {
        let mut out = [0; N];
        for b in &mut out {
            self.0 = self.0.wrapping_add(1);
            *b = (crate::rt::splitmix(self.0) >> 16) as u8;
        }
        out
    }
}

/// Appends operations to the chain of a keyword, as another client would.
pub fn write_keyword(
    et: &mut EtMap,
    ct: &mut CtMap,
    key: &[u8; 16],
    label: &[u8],
    kw: &[u8],
    mods: &[(bool, Vec<u8>)],
    earlier: bool,
    rnd: &mut Nonces,
) {
    let k = et_keys(key);
    let t = et_token(&k, kw, label);
    let mut e = match et.get(&t) {
        Some(v) => parse_entry(&open(&k, v).expect("entry")),
        None => Entry { last: [0; 32], seed: rnd.bytes(), hash: hash(kw) },
    };
    let ck = ct_keys(&e.seed);
    let mut prev = if e.last == [0; 32] { e.hash } else { e.last };
    for l in pack_as(mods, earlier) {
        let t = ct_token(&ck, &prev);
        ct.insert(t, seal(&ck, l, rnd.bytes()));
        prev = t;
    }
    if !mods.is_empty() {
        e.last = prev;
    }
    et.insert(t, seal(&k, entry_bytes(&e), rnd.bytes()));
}

pub fn all_value_bytes(et: &EtMap, ct: &CtMap) -> Vec<(Tok, Vec<u8>)> {
    et.iter()
        .map(|(t, v)| (*t, value_bytes(v)))
        .chain(ct.iter().map(|(t, v)| (*t, value_bytes(v))))
        .collect()
}
