//! ICRC-3 representation-independent hashing, written from the standard's text.
use crate::types::Value;
use sha2::{Digest, Sha256};

pub fn sha(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}

pub fn uleb(mut n: num_bigint::BigUint) -> Vec<u8> {
    use num_traits::{ToPrimitive, Zero};
    let mut out = vec![];
    loop {
        let low = (&n & num_bigint::BigUint::from(0x7fu8)).to_u8().unwrap();
        n >>= 7;
        if n.is_zero() {
            out.push(low);
            return out;
        }
        out.push(low | 0x80);
    }
}

fn sleb(v: &num_bigint::BigInt) -> Vec<u8> {
    use num_traits::{Signed, ToPrimitive, Zero};
    let mut v = v.clone();
    let mut out = vec![];
    loop {
        let m: num_bigint::BigInt = &v & num_bigint::BigInt::from(0x7f);
        let b = m.to_u8().unwrap();
        v >>= 7;
        let done = (v.is_zero() && b & 0x40 == 0)
            || (v.is_negative() && v == num_bigint::BigInt::from(-1) && b & 0x40 != 0);
        if done {
            out.push(b);
            return out;
        }
        out.push(b | 0x80);
    }
}

pub fn hash(v: &Value) -> [u8; 32] {
    match v {
        Value::Nat(n) => sha(&uleb(n.0.clone())),
        Value::Nat64(n) => sha(&uleb((*n).into())),
        Value::Int(i) => sha(&sleb(&i.0)),
        Value::Blob(b) => sha(b),
        Value::Text(t) => sha(t.as_bytes()),
        Value::Array(a) => {
            let mut buf = vec![];
            for x in a {
                buf.extend_from_slice(&hash(x));
            }
            sha(&buf)
        }
        Value::Map(m) => {
            let mut kv: Vec<([u8; 32], [u8; 32])> =
                m.iter().map(|(k, v)| (sha(k.as_bytes()), hash(v))).collect();
            kv.sort();
            let mut buf = vec![];
            for (k, v) in kv {
                buf.extend_from_slice(&k);
                buf.extend_from_slice(&v);
            }
            sha(&buf)
        }
    }
}

/// The root of the certified hash tree `{last_block_hash, last_block_index}` as the IC's
/// interface specification defines labeled trees.
pub fn tip_root(index: u64, hash: &[u8; 32]) -> [u8; 32] {
    let leaf = |b: &[u8]| {
        let mut v = b"\x10ic-hashtree-leaf".to_vec();
        v.extend_from_slice(b);
        sha(&v)
    };
    let labeled = |l: &[u8], h: [u8; 32]| {
        let mut v = b"\x13ic-hashtree-labeled".to_vec();
        v.extend_from_slice(l);
        v.extend_from_slice(&h);
        sha(&v)
    };
    let a = labeled(b"last_block_hash", leaf(hash));
    let b = labeled(b"last_block_index", leaf(&uleb(index.into())));
    let mut v = b"\x10ic-hashtree-fork".to_vec();
    v.extend_from_slice(&a);
    v.extend_from_slice(&b);
    sha(&v)
}

/// A hash tree as the IC's interface specification encodes it in CBOR.
#[derive(Debug)]
pub enum Tree {
    Empty,
    Fork(Box<Tree>, Box<Tree>),
    Labeled(Vec<u8>, Box<Tree>),
    Leaf(Vec<u8>),
    Pruned([u8; 32]),
}

impl Tree {
    pub fn parse(bytes: &[u8]) -> Result<Tree, String> {
        let mut p = Cbor { b: bytes, i: 0 };
        let t = p.tree(0)?;
        if p.i != bytes.len() {
            return Err("trailing bytes after the hash tree".into());
        }
        Ok(t)
    }
    pub fn root(&self) -> [u8; 32] {
        let dom = |d: &str, parts: &[&[u8]]| {
            let mut v = vec![d.len() as u8];
            v.extend_from_slice(d.as_bytes());
            for p in parts {
                v.extend_from_slice(p);
            }
            sha(&v)
        };
        match self {
            Tree::Empty => dom("ic-hashtree-empty", &[]),
            Tree::Fork(a, b) => dom("ic-hashtree-fork", &[&a.root(), &b.root()]),
            Tree::Labeled(l, t) => dom("ic-hashtree-labeled", &[l, &t.root()]),
            Tree::Leaf(d) => dom("ic-hashtree-leaf", &[d]),
            Tree::Pruned(h) => *h,
        }
    }
    pub fn lookup(&self, label: &[u8]) -> Option<Vec<u8>> {
        match self {
            Tree::Fork(a, b) => a.lookup(label).or_else(|| b.lookup(label)),
            Tree::Labeled(l, t) if l == label => match &**t {
                Tree::Leaf(d) => Some(d.clone()),
                _ => None,
            },
            _ => None,
        }
    }
}

struct Cbor<'a> {
    b: &'a [u8],
    i: usize,
}
impl Cbor<'_> {
    fn head(&mut self) -> Result<(u8, u64), String> {
        let ib = *self.b.get(self.i).ok_or("CBOR ends early")?;
        self.i += 1;
        let (maj, ai) = (ib >> 5, ib & 31);
        let n = match ai {
            0..=23 => return Ok((maj, ai as u64)),
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            _ => return Err("unsupported CBOR head".into()),
        };
        let s = self.b.get(self.i..self.i + n).ok_or("CBOR ends early")?;
        self.i += n;
        Ok((maj, s.iter().fold(0, |a, x| a << 8 | *x as u64)))
    }
    fn blob(&mut self) -> Result<Vec<u8>, String> {
        match self.head()? {
            (2, n) => {
                let s = self.b.get(self.i..self.i + n as usize).ok_or("CBOR ends early")?.to_vec();
                self.i += n as usize;
                Ok(s)
            }
            (3, n) => {
                let s = self.b.get(self.i..self.i + n as usize).ok_or("CBOR ends early")?.to_vec();
                self.i += n as usize;
                Ok(s)
            }
            h => Err(format!("expected a blob, got {h:?}")),
        }
    }
    fn tree(&mut self, depth: usize) -> Result<Tree, String> {
        if depth > 64 {
            return Err("hash tree too deep".into());
        }
        let mut h = self.head()?;
        if h == (6, 55799) {
            h = self.head()?;
        }
        let (4, n) = h else { return Err(format!("expected an array, got {h:?}")) };
        let tag = self.head()?;
        match (tag, n) {
            ((0, 0), 1) => Ok(Tree::Empty),
            ((0, 1), 3) => {
                Ok(Tree::Fork(Box::new(self.tree(depth + 1)?), Box::new(self.tree(depth + 1)?)))
            }
            ((0, 2), 3) => Ok(Tree::Labeled(self.blob()?, Box::new(self.tree(depth + 1)?))),
            ((0, 3), 2) => Ok(Tree::Leaf(self.blob()?)),
            ((0, 4), 2) => Ok(Tree::Pruned(
                self.blob()?.try_into().map_err(|_| "pruned node is not 32 bytes".to_string())?,
            )),
            x => Err(format!("unknown hash tree node {x:?}")),
        }
    }
}
