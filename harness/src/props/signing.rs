//! C18: signatures over record sets.

use super::sets::{any_set, reference, set_class, shuffled, MSet};
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::{hash_bytes, Src};
use maybe_dns::rdata::*;
use maybe_dns::*;
use ring::signature::KeyPair;
use rsa::pkcs8::DecodePrivateKey;
use rsa::traits::{PrivateKeyParts, PublicKeyParts};
use rsa::BigUint;
use std::sync::OnceLock;
use std::time::{Duration, UNIX_EPOCH};

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "a record set of every type is signed with a key of every algorithm, by the library and by another implementation; each signature is verified by both, after changes that keep the covered data (order, time to live, transport in a message) and after single changes to every covered part; arbitrary and near-valid key and signature octets are verified and used for signing; non-trivial: the set has a record or the octets are not empty; distinct by signed data, key and algorithm, or by the octets",
        phases: vec![
            phase("fast", 24000, 480000, |s, c, i| sign(s, c, i, &[13, 15, 16, 15, 13])),
            phase("slow", 3000, 64000, |s, c, i| sign(s, c, i, &[1, 5, 8, 10, 14, 3])),
            phase("dsa", 9000, 160000, |s, c, i| sign(s, c, i, &[3])),
            phase("made", 6000, 120000, made),
            phase("garbage", 48000, 1200000, garbage),
            phase("near", 24000, 640000, near),
            phase("private", 9000, 480000, private),
            phase("raw", 1800, 80000, raw),
        ],
    }
}

// ---------------------------------------------------------------------------------------------
// keys

#[derive(Clone)]
enum Kind {
    Rsa { n: BigUint, e: BigUint, d: BigUint },
    Dsa { p: BigUint, q: BigUint, g: BigUint, x: BigUint, y: BigUint },
    Ec,
    Ed25519,
    Ed448,
}

#[derive(Clone)]
struct Key {
    what: &'static str,
    kind: Kind,
    private: Vec<u8>,
    /// As it is stored in a DNSKEY record
    public: Vec<u8>,
}

fn pad(b: Vec<u8>, n: usize) -> Vec<u8> {
    let mut o = vec![0; n - b.len()];
    o.extend(b);
    o
}

fn rsa_key(what: &'static str, der: &[u8]) -> Key {
    let k = rsa::RsaPrivateKey::from_pkcs8_der(der).expect(what);
    let e = k.e().to_bytes_be();
    let mut public = vec![e.len() as u8];
    public.extend(e);
    public.extend(k.n().to_bytes_be());
    Key { what, kind: Kind::Rsa { n: k.n().clone(), e: k.e().clone(), d: k.d().clone() }, private: der.to_vec(), public }
}

fn dsa_key(what: &'static str, der: &[u8]) -> Key {
    use dsa::pkcs8::DecodePrivateKey;
    let k = dsa::SigningKey::from_pkcs8_der(der).expect(what);
    let c = k.verifying_key().components();
    let len = c.p().to_bytes_be().len();
    let mut public = vec![((len - 64) / 8) as u8];
    public.extend(pad(c.q().to_bytes_be(), 20));
    for v in [c.p(), c.g(), k.verifying_key().y()] {
        public.extend(pad(v.to_bytes_be(), len));
    }
    Key {
        what,
        kind: Kind::Dsa { p: c.p().clone(), q: c.q().clone(), g: c.g().clone(), x: k.x().clone(), y: k.verifying_key().y().clone() },
        private: der.to_vec(),
        public,
    }
}

fn ec_key(what: &'static str, der: &[u8], big: bool) -> Key {
    let alg = if big { &ring::signature::ECDSA_P384_SHA384_FIXED_SIGNING } else { &ring::signature::ECDSA_P256_SHA256_FIXED_SIGNING };
    let k = ring::signature::EcdsaKeyPair::from_pkcs8(alg, der, &ring::rand::SystemRandom::new()).expect(what);
    Key { what, kind: Kind::Ec, private: der.to_vec(), public: k.public_key().as_ref()[1..].to_vec() }
}

macro_rules! pool {
    ($f:expr, $($n:literal),*) => { vec![$($f($n, include_bytes!(concat!("../../keys/", $n, ".der")))),*] };
}

struct Pool {
    /// For the algorithms that need no minimum size
    rsa: Vec<Key>,
    /// Of the sizes and exponents that RSA/SHA-2 signing supports
    rsa_big: Vec<Key>,
    dsa: Vec<Key>,
    p256: Vec<Key>,
    p384: Vec<Key>,
}

fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| Pool {
        rsa: pool!(rsa_key, "rsa512_a", "rsa768_a", "rsa1023_a", "rsa1024_a", "rsa1024_b", "rsa1032_a", "rsa2048_c", "rsa2056_a"),
        rsa_big: pool!(rsa_key, "rsa2048_a", "rsa2048_b", "rsa2048_d", "rsa3072_a", "rsa4096_a"),
        dsa: pool!(dsa_key, "dsa512_a", "dsa576_a", "dsa768_a", "dsa1024_a"),
        p256: pool!(|w, d| ec_key(w, d, false), "p256_a", "p256_b", "p256_c"),
        p384: pool!(|w, d| ec_key(w, d, true), "p384_a", "p384_b", "p384_c"),
    })
}

/// PKCS#8 document and public key of a generated seed.
pub fn ed25519(g: &mut G) -> (Vec<u8>, Vec<u8>) {
    let seed = fill(g.s.below(u64::MAX), 32);
    let k = ring::signature::Ed25519KeyPair::from_seed_unchecked(&seed).expect("seed");
    let public = k.public_key().as_ref().to_vec();
    let mut der = vec![0x30, 0x51, 0x02, 0x01, 0x01, 0x30, 0x05, 0x06, 0x03, 0x2b, 0x65, 0x70, 0x04, 0x22, 0x04, 0x20];
    der.extend(&seed);
    der.extend([0x81, 0x21, 0x00]);
    der.extend(&public);
    (der, public)
}

pub fn rsa_small(s: &mut Src) -> &'static [u8] {
    &s.pick(&pool().rsa[..4]).private
}

fn key(s: &mut Src, alg: u8, signing: bool) -> Key {
    match alg {
        1 | 5 => {
            if s.chance(1, 6) {
                s.pick(&pool().rsa_big).clone()
            } else {
                s.pick(&pool().rsa).clone()
            }
        }
        8 | 10 => {
            if signing || s.bool() {
                pool().rsa_big[s.weighted(&[6, 4, 4, 2, 1])].clone()
            } else {
                // SHA-512 does not fit in the smallest key
                s.pick(&pool().rsa[1..]).clone()
            }
        }
        3 => s.pick(&pool().dsa).clone(),
        13 => s.pick(&pool().p256).clone(),
        14 => s.pick(&pool().p384).clone(),
        15 => {
            let mut g = G::new(s);
            let (private, public) = ed25519(&mut g);
            Key { what: "ed25519", kind: Kind::Ed25519, private, public }
        }
        16 => {
            let seed = fill(s.below(u64::MAX), 57);
            let k = crrl::ed448::PrivateKey::decode(&seed).expect("seed");
            Key { what: "ed448", kind: Kind::Ed448, public: k.public_key.encode().to_vec(), private: seed }
        }
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------------------------------
// the other implementation

fn hash(alg: u8, data: &[u8]) -> Vec<u8> {
    use sha2::Digest;
    match alg {
        1 => md5::Md5::digest(data).to_vec(),
        3 | 5 => sha1::Sha1::digest(data).to_vec(),
        8 => sha2::Sha256::digest(data).to_vec(),
        10 => sha2::Sha512::digest(data).to_vec(),
        _ => unreachable!(),
    }
}

/// The encoded message of PKCS #1 version 1.5, `k` octets long.
fn emsa(alg: u8, data: &[u8], k: usize) -> Vec<u8> {
    let prefix: &[u8] = match alg {
        1 => &[0x30, 0x20, 0x30, 0x0c, 0x06, 0x08, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x02, 0x05, 0x05, 0x00, 0x04, 0x10],
        5 => &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14],
        8 => &[0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20],
        10 => &[0x30, 0x51, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x03, 0x05, 0x00, 0x04, 0x40],
        _ => unreachable!(),
    };
    let mut t = prefix.to_vec();
    t.extend(hash(alg, data));
    let mut o = vec![0, 1];
    o.resize(k - t.len() - 1, 0xff);
    o.push(0);
    o.extend(t);
    o
}

fn other_verify(alg: u8, k: &Key, data: &[u8], sig: &[u8]) -> bool {
    match &k.kind {
        Kind::Rsa { n, e, .. } => {
            let len = n.to_bytes_be().len();
            sig.len() == len && pad(BigUint::from_bytes_be(sig).modpow(e, n).to_bytes_be(), len) == emsa(alg, data, len)
        }
        Kind::Dsa { p, q, g, y, .. } => {
            if sig.len() != 41 || sig[0] as usize != (p.to_bytes_be().len() - 64) / 8 {
                return false;
            }
            let (r, s) = (BigUint::from_bytes_be(&sig[1..21]), BigUint::from_bytes_be(&sig[21..]));
            let zero = BigUint::from(0u8);
            if r == zero || s == zero || r >= *q || s >= *q {
                return false;
            }
            let w = s.modpow(&(q - BigUint::from(2u8)), q);
            let u1 = BigUint::from_bytes_be(&hash(3, data)) * &w % q;
            let u2 = &r * &w % q;
            g.modpow(&u1, p) * y.modpow(&u2, p) % p % q == r
        }
        Kind::Ec => {
            let mut point = vec![4];
            point.extend(&k.public);
            let a: &dyn ring::signature::VerificationAlgorithm =
                if alg == 13 { &ring::signature::ECDSA_P256_SHA256_FIXED } else { &ring::signature::ECDSA_P384_SHA384_FIXED };
            ring::signature::UnparsedPublicKey::new(a, point).verify(data, sig).is_ok()
        }
        Kind::Ed25519 => ring::signature::UnparsedPublicKey::new(&ring::signature::ED25519, &k.public).verify(data, sig).is_ok(),
        Kind::Ed448 => crrl::ed448::PublicKey::decode(&k.public).unwrap().verify_ctx(sig, b"", data),
    }
}

fn other_sign(s: &mut Src, alg: u8, k: &Key, data: &[u8]) -> Vec<u8> {
    match &k.kind {
        Kind::Rsa { n, d, .. } => {
            let len = n.to_bytes_be().len();
            pad(BigUint::from_bytes_be(&emsa(alg, data, len)).modpow(d, n).to_bytes_be(), len)
        }
        Kind::Dsa { p, q, g, x, .. } => {
            let kk = BigUint::from_bytes_be(&fill(s.below(u64::MAX), 24)) % (q - BigUint::from(1u8)) + BigUint::from(1u8);
            let r = g.modpow(&kk, p) % q;
            let h = BigUint::from_bytes_be(&hash(3, data));
            let ss = kk.modpow(&(q - BigUint::from(2u8)), q) * (h + x * &r) % q;
            let mut o = vec![((p.to_bytes_be().len() - 64) / 8) as u8];
            o.extend(pad(r.to_bytes_be(), 20));
            o.extend(pad(ss.to_bytes_be(), 20));
            o
        }
        Kind::Ec => {
            let a = if alg == 13 { &ring::signature::ECDSA_P256_SHA256_FIXED_SIGNING } else { &ring::signature::ECDSA_P384_SHA384_FIXED_SIGNING };
            let rng = ring::rand::SystemRandom::new();
            let kp = ring::signature::EcdsaKeyPair::from_pkcs8(a, &k.private, &rng).unwrap();
            kp.sign(&rng, data).unwrap().as_ref().to_vec()
        }
        Kind::Ed25519 => {
            let kp = ring::signature::Ed25519KeyPair::from_seed_unchecked(&k.private[16..48]).unwrap();
            kp.sign(data).as_ref().to_vec()
        }
        Kind::Ed448 => crrl::ed448::PrivateKey::decode(&k.private).unwrap().sign_ctx(b"", data).to_vec(),
    }
}

// ---------------------------------------------------------------------------------------------
// signature records

#[derive(Clone, Debug, PartialEq)]
struct Fields {
    covered: u16,
    alg: u8,
    labels: u8,
    ttl: u32,
    exp: u32,
    inc: u32,
    tag: u16,
    signer: Name,
}

impl Fields {
    fn wire(&self) -> Vec<u8> {
        let mut o = self.covered.to_be_bytes().to_vec();
        o.extend([self.alg, self.labels]);
        o.extend(self.ttl.to_be_bytes());
        o.extend(self.exp.to_be_bytes());
        o.extend(self.inc.to_be_bytes());
        o.extend(self.tag.to_be_bytes());
        o.extend(encode_name(&self.signer));
        o
    }
    fn read(b: &[u8], signer: &Name) -> Option<Fields> {
        let n = 18 + name_len(signer);
        if b.len() < n || b[18..n] != encode_name(signer)[..] {
            return None;
        }
        let w = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap());
        Some(Fields {
            covered: u16::from_be_bytes([b[0], b[1]]),
            alg: b[2],
            labels: b[3],
            ttl: w(4),
            exp: w(8),
            inc: w(12),
            tag: u16::from_be_bytes([b[16], b[17]]),
            signer: signer.clone(),
        })
    }
    fn build(&self, sig: &[u8]) -> Rrsig {
        Rrsig::new(rtype(self.covered), set(self.alg), self.labels, self.ttl, self.exp, self.inc, self.tag, fq(&self.signer), sig.to_vec())
    }
}

/// Record data and the record set made of them.
struct Built {
    name: FQDN,
    class: RecordClass,
    recs: Vec<RecordData>,
    data: Vec<Vec<u8>>,
}

fn build_set(m: &MSet) -> Built {
    let recs: Vec<RecordData> = m.recs.iter().map(build_rd).collect();
    let data = recs.iter().map(|r| r.to_bytes()).collect();
    Built { name: fq(&m.name), class: set_class(m), recs, data }
}

impl Built {
    fn set(&self, code: u16, ttl: u32, order: Option<&[usize]>) -> ResourceRecordSet<'_> {
        let recs = match order {
            None => self.recs.iter().collect(),
            Some(o) => o.iter().map(|i| &self.recs[*i]).collect(),
        };
        ResourceRecordSet::new(&self.name, rtype(code), self.class, ttl, recs)
    }
}

/// What the signature covers.
fn covered(f: &Fields, m: &MSet, b: &Built) -> Vec<u8> {
    let mut o = f.wire();
    o.extend(reference(&m.name, m.code, u16::from(b.class), f.ttl, &b.data));
    o
}

/// The covered data but for what is left open: letter case and repetitions.
fn essence(f: &Fields, m: &MSet, b: &Built) -> Vec<u8> {
    let mut data: Vec<Vec<u8>> = b.data.iter().map(|d| d.to_ascii_lowercase()).collect();
    data.sort();
    data.dedup();
    let mut o = f.wire().to_ascii_lowercase();
    o.push(0xff);
    for d in data {
        o.extend(encode_name(&lower(&m.name)));
        o.extend(m.code.to_be_bytes());
        o.extend(u16::from(b.class).to_be_bytes());
        o.extend((d.len() as u32).to_be_bytes());
        o.extend(d);
    }
    o
}

fn dnskey(g: &mut Src, alg: u8, public: &[u8]) -> DnsKey {
    let mut k = DnsKey::new(set(alg), public.to_vec());
    k.zone_key = g.bool();
    k.secure_entry_point = g.bool();
    k
}

fn small_set(g: &mut G, idx: u64) -> MSet {
    let codes = g.all_types();
    let code = codes[idx as usize % codes.len()];
    let mut m = any_set(g, code, 2, 6);
    if m.recs.is_empty() && g.s.chance(7, 8) {
        m.recs.push(g.rdata(code));
    }
    if g.s.chance(1, 24) {
        // many records
        let n = g.s.usize(13, 400);
        let seed = g.s.below(u64::MAX);
        if g.s.bool() {
            m.code = 1;
            m.recs = fill(seed, n * 4).chunks(4).map(|c| MR::A([c[0], c[1], c[2], c[3]])).collect();
        } else {
            let mut inner = Src::random(seed);
            let mut h = G::new(&mut inner);
            m.recs = (0..n).map(|_| h.rdata(code)).collect();
        }
        if code == 41 {
            m.code = 41;
            m.recs.truncate(12);
            m.recs.retain(|r| !matches!(r, MR::A(_)));
        }
    }
    m
}

fn sign(s: &mut Src, ctx: &mut Ctx, idx: u64, algs: &[u8]) -> Res {
    let alg = algs[idx as usize % algs.len()];
    let k = key(s, alg, true);
    let mut g = G::new(s);
    let m = small_set(&mut g, idx / algs.len() as u64);
    let b = build_set(&m);
    let (inc, exp) = (g.u32(), g.u32());
    let dk = dnskey(s, alg, &k.public);
    let rs = b.set(m.code, m.ttl, None);
    let show = || {
        format!(
            "algorithm {alg} key {} over {} {} class {} ttl {} {:?}",
            k.what,
            show_name(&m.name),
            type_name(m.code),
            m.class,
            m.ttl,
            b.data.iter().map(|d| hex(d)).collect::<Vec<_>>()
        )
    };
    let sig = Rrsig::from_dnskey(
        &dk,
        &rs,
        &(UNIX_EPOCH + Duration::from_secs(inc as u64)),
        &(UNIX_EPOCH + Duration::from_secs(exp as u64)),
        &k.private,
    )
    .map_err(|e| format!("{}: signing failed: {e:?}", show()))?;
    let wire = sig.to_bytes();
    let f = Fields::read(&wire, &m.name).ok_or_else(|| format!("{}: unexpected signature record {}", show(), hex(&wire)))?;
    ensure!(
        (f.covered, f.alg, f.ttl, f.exp, f.inc) == (m.code, alg, m.ttl, exp, inc),
        "{}: the signature record has the fields {f:?}",
        show()
    );
    let data = covered(&f, &m, &b);
    if !m.recs.is_empty() {
        ctx.nontrivial(hash_bytes(&data) ^ hash_bytes(&k.public));
    }
    let length = match alg {
        1 | 5 | 8 | 10 => match &k.kind {
            Kind::Rsa { n, .. } => n.to_bytes_be().len(),
            _ => unreachable!(),
        },
        3 => 41,
        13 | 15 => 64,
        14 => 96,
        _ => 114,
    };
    ensure!(sig.signature().len() == length, "{}: the signature has {} octets, expected {length}", show(), sig.signature().len());
    ctx.eval();
    ensure!(other_verify(alg, &k, &data, sig.signature()), "{}: another implementation rejects the signature {}", show(), hex(sig.signature()));
    let fine = |what: &str, r: Result<bool, DnsError>| -> Res {
        match r {
            Ok(true) => Ok(()),
            r => Err(format!("{}: {what}: verification gives {r:?}", show())),
        }
    };
    ctx.evals(4);
    fine("unchanged", sig.verify(&dk, &rs))?;
    // what is not covered
    let order = shuffled(s, b.recs.len());
    let ttl = *s.pick(&[0, 1, u32::MAX, m.ttl.wrapping_sub(1), m.ttl / 2]);
    fine("other order", sig.verify(&dk, &b.set(m.code, m.ttl, Some(&order))))?;
    fine("other time to live", sig.verify(&dk, &b.set(m.code, ttl, Some(&order))))?;
    let mut sorted = b.set(m.code, ttl, Some(&order));
    sorted.canonical_reorder();
    fine("canonical order", sig.verify(&dk, &sorted))?;
    // transport
    let got = transport(s, &sig, &dk, &b, m.code, ttl)?;
    if let Some((sig2, dk2, recs2)) = got {
        ctx.eval();
        let set = ResourceRecordSet::new(&b.name, rtype(m.code), b.class, ttl, recs2.iter().collect());
        fine("after transport", sig2.verify(&dk2, &set))?;
    }
    ctx.class(&format!("algorithm {alg}"));
    ctx.class(type_name(m.code));
    ctx.sample(show);
    tampered(s, ctx, alg, &k, &f, &m, &b, sig.signature(), &show)
}

/// Signature, key and records after a trip through a message; `None` if they do not fit.
#[allow(clippy::type_complexity)]
fn transport(s: &mut Src, sig: &Rrsig, dk: &DnsKey, b: &Built, code: u16, ttl: u32) -> Result<Option<(Rrsig, DnsKey, Vec<RecordData>)>, String> {
    if code == 41 {
        return Ok(None);
    }
    let mut p = Packet::new_reply(7);
    for r in &b.recs {
        p.add_answer(ResourceRecord::new(b.name.clone(), rtype(code), b.class, ttl, r.clone()));
    }
    p.add_answer(ResourceRecord::new(b.name.clone(), RecordType::RRSIG, RecordClass::IN, ttl, RecordData::RRSIG(sig.clone())));
    p.add_additional(ResourceRecord::new(b.name.clone(), RecordType::DNSKEY, RecordClass::IN, ttl, RecordData::DNSKEY(dk.clone())));
    let wire = if s.bool() { p.to_bytes_compressed() } else { p.to_bytes() };
    let q = match Packet::try_from(&wire[..]) {
        Ok(q) => q,
        Err(_) => return Ok(None),
    };
    let n = b.recs.len();
    if q.answers().len() != n + 1 || q.additionals().len() != 1 {
        return Ok(None);
    }
    // whether records arrive as they were sent is C06's business
    let recs: Vec<RecordData> = q.answers()[..n].iter().map(|r| r.data().clone()).collect();
    if recs.iter().zip(&b.recs).any(|(x, y)| x.to_bytes() != y.to_bytes()) {
        return Ok(None);
    }
    match (q.answers()[n].data(), q.additionals()[0].data()) {
        (RecordData::RRSIG(x), RecordData::DNSKEY(y)) => Ok(Some((x.clone(), y.clone(), recs))),
        _ => Ok(None),
    }
}

fn flip(s: &mut Src, b: &[u8], from: usize) -> Vec<u8> {
    let mut b = b.to_vec();
    if b.len() > from {
        let i = s.usize(from, b.len() - 1);
        b[i] ^= 1 << s.below(8);
    }
    b
}

/// Single changes, each of which has to make the verification fail.
#[allow(clippy::too_many_arguments)]
fn tampered(s: &mut Src, ctx: &mut Ctx, alg: u8, k: &Key, f: &Fields, m: &MSet, b: &Built, sig: &[u8], show: &dyn Fn() -> String) -> Res {
    let base = essence(f, m, b);
    let dk = dnskey(s, alg, &k.public);
    for _ in 0..4 {
        let mut f2 = f.clone();
        let mut m2 = m.clone();
        let mut sig2 = sig.to_vec();
        let mut public = k.public.clone();
        let mut alg2 = alg;
        let what = s.below(22);
        let name: &str = match what {
            0 => {
                let codes = G::new(s).all_types();
                f2.covered = *s.pick(&codes);
                "type covered"
            }
            1 => {
                f2.labels ^= 1 << s.below(8);
                "labels"
            }
            2 => {
                f2.ttl ^= 1 << s.below(32);
                "original time to live"
            }
            3 => {
                f2.exp ^= 1 << s.below(32);
                "expiration"
            }
            4 => {
                f2.inc ^= 1 << s.below(32);
                "inception"
            }
            5 => {
                f2.tag ^= 1 << s.below(16);
                "key tag"
            }
            6 => {
                let mut g = G::new(s);
                f2.signer = change_name(&mut g, &f.signer);
                "signer"
            }
            7 => {
                let mut g = G::new(s);
                m2.name = change_name(&mut g, &m.name);
                "owner"
            }
            8 => {
                m2.class = *s.pick(&[1, 2, 3, 4, m.class ^ 0x100]);
                "class"
            }
            9 => {
                let codes = G::new(s).all_types();
                // the class of options is a number of its own kind
                if m.code != 41 {
                    m2.code = *s.pick(&codes);
                    if m2.code == 41 {
                        m2.code = 1;
                    }
                }
                "type of the set"
            }
            10 | 11 => {
                if !m2.recs.is_empty() {
                    let i = s.usize(0, m2.recs.len() - 1);
                    let mut g = G::new(s);
                    m2.recs[i] = g.rdata(m.code);
                }
                "record"
            }
            12 => {
                if !m2.recs.is_empty() {
                    let i = s.usize(0, m2.recs.len() - 1);
                    m2.recs.remove(i);
                }
                "record left out"
            }
            13 => {
                let mut g = G::new(s);
                let r = g.rdata(m.code);
                m2.recs.push(r);
                "additional record"
            }
            14 | 15 => {
                // the first octet of DSA signatures only repeats a parameter of the key
                sig2 = flip(s, sig, (alg == 3) as usize);
                "signature"
            }
            16 => {
                match s.below(4) {
                    0 => {
                        sig2.pop();
                    }
                    1 => sig2.clear(),
                    2 => sig2.push(0),
                    _ => sig2.insert(0, 0),
                }
                "length of the signature"
            }
            17 => {
                let n = sig2.len();
                let octet = *s.pick(&[0u8, 0xff, 1]);
                sig2 = vec![octet; n];
                "uniform signature"
            }
            18 | 19 => {
                // unused bits: a key of Ed448 is the only one with some, and they must be zero
                public = flip(s, &k.public, 0);
                "key"
            }
            20 => {
                let k2 = key(s, alg, false);
                public = k2.public;
                "other key"
            }
            _ => {
                alg2 = *s.pick(&[1u8, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254]);
                "algorithm of the key"
            }
        };
        let b2 = build_set(&m2);
        if b2.data.iter().any(|d| d.len() > 65535) {
            continue;
        }
        let changed = essence(&f2, &m2, &b2) != base || sig2 != sig || public != k.public || alg2 != alg;
        if !changed {
            continue;
        }
        let dk2 = if what >= 18 { dnskey(s, alg2, &public) } else { dk.clone() };
        let set2 = b2.set(m2.code, m2.ttl, None);
        ctx.eval();
        ctx.class(name);
        let r = guarded(|| f2.build(&sig2).verify(&dk2, &set2)).map_err(|p| format!("{}: {name} changed: {p}", show()))?;
        if let Ok(true) = r {
            return Err(format!(
                "{}: the signature still verifies after a change: {name} (now {f2:?} over {} {} class {} {:?}, signature {}, key {} of algorithm {alg2})",
                show(),
                show_name(&m2.name),
                type_name(m2.code),
                m2.class,
                b2.data.iter().map(|d| hex(d)).collect::<Vec<_>>(),
                hex(&sig2),
                hex(&public)
            ));
        }
    }
    Ok(())
}

fn change_name(g: &mut G, n: &Name) -> Name {
    let mut n = n.clone();
    match g.s.below(4) {
        0 if !n.is_empty() => {
            let i = g.s.usize(0, n.len() - 1);
            let j = g.s.usize(0, n[i].len() - 1);
            n[i][j] ^= 1 << g.s.below(8);
        }
        1 if !n.is_empty() => {
            n.remove(0);
        }
        2 if name_len(&n) < 250 => n.insert(0, vec![b'x']),
        _ => n = g.name(),
    }
    n
}

/// Signatures that another implementation made, with fields the library would not choose itself.
fn made(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let alg = [15u8, 13, 16, 14, 3, 1, 5, 8, 10][idx as usize % 9];
    let k = key(s, alg, false);
    let mut g = G::new(s);
    let m = small_set(&mut g, idx / 9);
    let b = build_set(&m);
    let f = Fields {
        covered: m.code,
        alg,
        labels: if g.s.bool() { m.name.len() as u8 } else { g.u8() },
        ttl: g.u32(),
        exp: g.u32(),
        inc: g.u32(),
        tag: g.u16(),
        signer: g.name(),
    };
    let data = covered(&f, &m, &b);
    let sig = other_sign(s, alg, &k, &data);
    let show = || {
        format!(
            "signature of another implementation, algorithm {alg} key {}, {f:?} over {} {} class {} {:?}",
            k.what,
            show_name(&m.name),
            type_name(m.code),
            m.class,
            b.data.iter().map(|d| hex(d)).collect::<Vec<_>>()
        )
    };
    if !other_verify(alg, &k, &data, &sig) {
        return Err(format!("{}: the harness is wrong: it rejects its own signature", show()));
    }
    if !m.recs.is_empty() {
        ctx.nontrivial(hash_bytes(&data) ^ hash_bytes(&k.public));
    }
    let mut publics = vec![k.public.clone()];
    if let Kind::Rsa { e, n, .. } = &k.kind {
        // the long form of the length
        let e = e.to_bytes_be();
        let mut long = vec![0, 0, e.len() as u8];
        long.extend(e);
        long.extend(n.to_bytes_be());
        publics.push(long);
    }
    for p in &publics {
        ctx.eval();
        let dk = dnskey(s, alg, p);
        let order = shuffled(s, b.recs.len());
        let ttl = if s.bool() { f.ttl } else { m.ttl };
        let rr = f.build(&sig);
        match rr.verify(&dk, &b.set(m.code, ttl, Some(&order))) {
            Ok(true) => {}
            r => return Err(format!("{}: verification with the key {} gives {r:?}", show(), hex(p))),
        }
        // over the wire
        let w = rr.to_bytes();
        let mut buf = DnsBuffer::from(&w[..]);
        if let Ok(back) = Rrsig::try_from(&mut buf) {
            match back.verify(&dk, &b.set(m.code, ttl, None)) {
                Ok(true) => {}
                r => return Err(format!("{}: verification after a trip over the wire gives {r:?}", show())),
            }
        }
    }
    ctx.class(&format!("made with algorithm {alg}"));
    ctx.sample(show);
    tampered(s, ctx, alg, &k, &f, &m, &b, &sig, &show)
}

/// Numbers that arithmetic trips over.
fn number(s: &mut Src, len: usize) -> Vec<u8> {
    let mut v = match s.below(7) {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => {
            let mut v = vec![0; len];
            if let Some(l) = v.last_mut() {
                *l = s.below(5) as u8;
            }
            v
        }
        3 => {
            let mut v = vec![0; len];
            if let Some(l) = v.first_mut() {
                *l = 0x80;
            }
            v
        }
        _ => {
            let mut v = fill(s.below(u64::MAX), len);
            if s.bool() {
                let z = s.usize(0, len);
                v[..z].fill(0);
            }
            v
        }
    };
    if let Some(l) = v.last_mut() {
        match s.below(3) {
            0 => *l |= 1,
            1 => *l &= !1,
            _ => {}
        }
    }
    v
}

/// Key and signature octets without any valid origin.
fn garbage(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let alg = [1u8, 5, 8, 10, 3, 3, 13, 14, 15, 16, 252, 253, 254][idx as usize % 13];
    let (public, sig) = match s.below(4) {
        0 => {
            let mut g = G::new(s);
            (g.blob(200), g.blob(200))
        }
        _ => match alg {
            1 | 5 | 8 | 10 => {
                let n = *s.pick(&[0usize, 1, 2, 8, 32, 46, 62, 64, 65, 94, 128, 256, 511, 512, 513, 700]);
                let modulus = number(s, n);
                let el = *s.pick(&[0usize, 1, 2, 3, 4, 5, 8, 255, 300]);
                let mut e = number(s, el);
                if el == 3 && s.bool() {
                    e = vec![1, 0, 1];
                }
                let mut p = Vec::new();
                if el > 255 || s.chance(1, 4) {
                    p.push(0);
                    p.extend((el as u16).to_be_bytes());
                } else {
                    p.push(el as u8);
                }
                p.extend(e);
                p.extend(&modulus);
                let sl = if s.chance(4, 5) { n } else { s.usize(0, 600) };
                let sig = match s.below(4) {
                    0 => modulus[..sl.min(n)].to_vec(),
                    _ => number(s, sl),
                };
                (p, sig)
            }
            3 => {
                let t = *s.pick(&[0usize, 1, 4, 8, 8, 9, 255]);
                let len = 64 + 8 * t;
                let mut p = vec![t as u8];
                let q = number(s, 20);
                p.extend(&q);
                for _ in 0..3 {
                    p.extend(number(s, len));
                }
                if s.chance(1, 6) {
                    let cut = s.usize(0, p.len());
                    p.truncate(cut);
                }
                let mut sig = vec![t as u8];
                sig.extend(number(s, 20));
                sig.extend(if s.chance(1, 4) { q } else { number(s, 20) });
                if s.chance(1, 6) {
                    sig.truncate(s.usize(0, 41));
                }
                (p, sig)
            }
            _ => {
                let (a, b) = match alg {
                    13 => (64, 64),
                    14 => (96, 96),
                    15 => (32, 64),
                    _ => (57, 114),
                };
                let a = *s.pick(&[a, a, a, a + 1, a - 1, 0]);
                let b = *s.pick(&[b, b, b, b + 1, b - 1, 0]);
                let mut p = number(s, a);
                if s.chance(1, 4) {
                    p.insert(0, *s.pick(&[4, 2, 3, 0]));
                }
                (p, number(s, b))
            }
        },
    };
    any_verify(s, ctx, alg, &public, &sig, idx)
}

/// Valid keys and signatures with a few octets changed: anything goes but a panic, a hang or
/// acceptance of what the reference rejects.
fn near(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let alg = [1u8, 5, 8, 10, 3, 3, 3, 13, 14, 15, 16][idx as usize % 11];
    let k = key(s, alg, false);
    let mut public = k.public.clone();
    let n = match alg {
        3 => 41,
        13 | 15 => 64,
        14 => 96,
        16 => 114,
        _ => public.len().saturating_sub(4),
    };
    let mut sig = fill(s.below(u64::MAX), n);
    for _ in 0..s.below(4) {
        let b = if s.chance(2, 3) { &mut public } else { &mut sig };
        match s.below(5) {
            0 if !b.is_empty() => {
                let i = s.usize(0, b.len() - 1);
                b[i] = *s.pick(&[0, 0xff, 1, 0x80, 0x7f]);
            }
            1 if !b.is_empty() => {
                let i = s.usize(0, 24.min(b.len() - 1));
                b[i] = s.below(256) as u8;
            }
            2 => b.truncate(s.usize(0, b.len())),
            3 => {
                let l = b.len();
                let from = s.usize(0, l);
                let to = s.usize(from, l);
                b[from..to].fill(*s.pick(&[0, 0xff]));
            }
            _ => b.push(s.below(256) as u8),
        }
    }
    any_verify(s, ctx, alg, &public, &sig, idx)
}

fn any_verify(s: &mut Src, ctx: &mut Ctx, alg: u8, public: &[u8], sig: &[u8], idx: u64) -> Res {
    let mut g = G::new(s);
    let m = small_set(&mut g, idx);
    let b = build_set(&m);
    let f = Fields { covered: m.code, alg, labels: 1, ttl: g.u32(), exp: g.u32(), inc: g.u32(), tag: g.u16(), signer: m.name.clone() };
    let dk = dnskey(s, alg, public);
    ctx.eval();
    if !public.is_empty() {
        ctx.nontrivial(hash_bytes(public) ^ hash_bytes(sig).rotate_left(1));
    }
    let r = guarded(|| {
        let r = f.build(sig).verify(&dk, &b.set(m.code, m.ttl, None));
        if let Err(e) = &r {
            let _ = format!("{e} {e:?}");
        }
        r
    })
    .map_err(|p| format!("verification of the signature {} of algorithm {alg} with the key {}: {p}", hex(sig), hex(public)))?;
    ctx.class(match r {
        Ok(true) => "garbage accepted",
        Ok(false) => "garbage not verified",
        Err(_) => "garbage rejected",
    });
    if alg >= 252 {
        ensure!(!matches!(r, Ok(true)), "a signature of the private algorithm {alg} is accepted");
    }
    ctx.sample(|| format!("algorithm {alg} key {} signature {}", hex(public), hex(sig)));
    Ok(())
}

/// Signing with anything.
fn private(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let alg = [1u8, 5, 8, 10, 3, 3, 13, 14, 15, 16, 252, 253, 254][idx as usize % 13];
    let mut der = match s.below(4) {
        0 => G::new(s).blob(200),
        1 => {
            let a = *s.pick(&[1u8, 3, 8, 13, 14, 15, 16]);
            key(s, a, true).private
        }
        _ if alg < 252 => key(s, alg, true).private,
        _ => Vec::new(),
    };
    if s.bool() {
        for _ in 0..1 + s.below(3) {
            match s.below(4) {
                0 if !der.is_empty() => {
                    let i = s.usize(0, der.len() - 1);
                    der[i] ^= 1 << s.below(8);
                }
                1 if !der.is_empty() => {
                    let i = s.usize(0, 60.min(der.len() - 1));
                    der[i] = s.below(256) as u8;
                }
                2 => der.truncate(s.usize(0, der.len())),
                _ => der.push(s.below(256) as u8),
            }
        }
    }
    let mut g = G::new(s);
    let m = small_set(&mut g, idx);
    let b = build_set(&m);
    let public = g.blob(40);
    let dk = dnskey(s, alg, &public);
    ctx.eval();
    if !der.is_empty() {
        ctx.nontrivial_bytes(&der);
    }
    let r = guarded(|| {
        let a = UNIX_EPOCH + Duration::from_secs(5);
        Rrsig::from_dnskey(&dk, &b.set(m.code, m.ttl, None), &a, &a, &der)
    })
    .map_err(|p| format!("signing with the key {} of algorithm {alg}: {p}", hex(&der)))?;
    if alg >= 252 {
        ensure!(r.is_err(), "signing with the private algorithm {alg} succeeds");
    }
    ctx.class(if r.is_ok() { "signed" } else { "not signed" });
    Ok(())
}

/// Signing plain data.
fn raw(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let alg = [15u8, 13, 16, 14, 3, 1, 5, 8, 10][idx as usize % 9];
    let k = key(s, alg, true);
    let mut g = G::new(s);
    let data = g.blob(3000);
    let dk = DnsKey::new(set(alg), k.public.clone());
    let sig = dk.algorithm.sign_data(&data, &k.private).map_err(|e| format!("algorithm {alg} key {}: signing failed: {e:?}", k.what))?;
    ctx.eval();
    if !data.is_empty() {
        ctx.nontrivial_bytes(&data);
    }
    ensure!(
        other_verify(alg, &k, &data, &sig),
        "algorithm {alg} key {}: another implementation rejects the signature {} of {}",
        k.what,
        hex(&sig),
        hex(&data)
    );
    Ok(())
}
