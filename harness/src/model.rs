//! Reference model of DNS messages, independent of the library: values, wire format (plain, with
//! greedy or with arbitrary legal compression) and a walker that checks encoded messages.

use crate::ensure;
use crate::src::Src;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Name = Vec<Vec<u8>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Gw {
    None,
    V4([u8; 4]),
    V6([u8; 16]),
    Name(Name),
}

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Mandatory(BTreeSet<u16>),
    Alpn(Vec<Vec<u8>>),
    NoDefaultAlpn,
    Port(u16),
    V4([u8; 4]),
    Ech(Vec<u8>),
    V6([u8; 16]),
    Private(u16, Vec<u8>),
    Invalid,
}

impl P {
    pub fn key(&self) -> u16 {
        match self {
            P::Mandatory(_) => 0,
            P::Alpn(_) => 1,
            P::NoDefaultAlpn => 2,
            P::Port(_) => 3,
            P::V4(_) => 4,
            P::Ech(_) => 5,
            P::V6(_) => 6,
            P::Private(k, _) => *k,
            P::Invalid => 65535,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let v = match self {
            P::Mandatory(keys) => keys.iter().flat_map(|k| k.to_be_bytes()).collect(),
            P::Alpn(a) => {
                let mut v = Vec::new();
                for x in a {
                    v.push(x.len() as u8);
                    v.extend(x);
                }
                v
            }
            P::NoDefaultAlpn | P::Invalid => vec![],
            P::Port(p) => p.to_be_bytes().to_vec(),
            P::V4(a) => a.to_vec(),
            P::Ech(b) => b.clone(),
            P::V6(a) => a.to_vec(),
            P::Private(_, b) => b.clone(),
        };
        let mut o = self.key().to_be_bytes().to_vec();
        o.extend((v.len() as u16).to_be_bytes());
        o.extend(v);
        o
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MR {
    A([u8; 4]),
    Ns(Name),
    Cname(Name),
    Soa { mname: Name, rname: Name, nums: [u32; 5] },
    Null(Vec<u8>),
    Wks { addr: [u8; 4], proto: u8, bitmap: Vec<u8> },
    Ptr(Name),
    Hinfo(Vec<u8>, Vec<u8>),
    Minfo(Name, Name),
    Mx(u16, Name),
    Txt(Vec<String>),
    Aaaa([u8; 16]),
    Loc { b: [u8; 4], n: [u32; 3] },
    Srv(u16, u16, u16, Name),
    Naptr { order: u16, pref: u16, flags: Vec<u8>, service: Vec<u8>, regexp: String, repl: Name },
    Opt(BTreeMap<u16, Vec<u8>>),
    Apl { prefix: u8, neg: bool, v6: bool, addr: [u8; 16] },
    Sshfp(u8, u8, Vec<u8>),
    IpSecKey { prec: u8, alg: u8, gw: Gw, key: Vec<u8> },
    Dhcid(u16, Vec<u8>),
    Tlsa(u8, u8, u8, Vec<u8>),
    Hip { alg: u8, hit: Vec<u8>, key: Vec<u8>, rvs: Vec<Name> },
    OpenPgp(Vec<u8>),
    Csync { serial: u32, flags: u16, types: BTreeSet<u16> },
    Svcb { prio: u16, target: Name, params: Vec<P> },
    Eui48([u8; 6]),
    Eui64([u8; 8]),
    Tkey { alg: Name, inception: u32, expiration: u32, mode: u16, error: u16, key: Vec<u8>, other: Vec<u8> },
    Tsig { alg: Name, time: u64, fudge: u16, mac: Vec<u8>, id: u16, error: u16, other: Vec<u8> },
    Uri(u16, u16, Vec<u8>),
    Caa { critical: bool, tag: String, value: Vec<u8> },
    // dnssec
    Ds { child: bool, tag: u16, alg: u8, digest_type: u8, digest: Vec<u8> },
    DnsKey { child: bool, zone: bool, sep: bool, alg: u8, key: Vec<u8> },
    Rrsig { covered: u16, alg: u8, labels: u8, ttl: u32, exp: u32, inc: u32, tag: u16, signer: Name, sig: Vec<u8> },
    Nsec { next: Name, types: BTreeSet<u16> },
}

pub const BASE_TYPES: &[u16] = &[
    1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 28, 29, 33, 35, 41, 42, 44, 45, 49, 52, 55, 61, 62, 64, 108, 109, 249, 250,
    256, 257,
];
pub const DNSSEC_TYPES: &[u16] = &[43, 46, 47, 48, 59, 60];
pub const QUERY_TYPES: &[u16] = &[252, 253, 254, 255];
pub const DNSSEC_ALGS: &[u8] = &[1, 3, 5, 8, 10, 13, 14, 15, 16, 252, 253, 254];
pub const DIGEST_TYPES: &[u8] = &[1, 2, 4, 5];
pub const TSIG_ERRORS: &[u16] = &[0, 16, 17, 18, 22];
/// Types in whose data the library is allowed to compress names (RecordType::compression_allowed;
/// the walker consults the library for the names of a type, this list is for the encoder).
pub const COMPRESSIBLE: &[u16] = &[2, 5, 6, 12, 14, 15, 33, 35, 47];

impl MR {
    pub fn code(&self) -> u16 {
        match self {
            MR::A(..) => 1,
            MR::Ns(..) => 2,
            MR::Cname(..) => 5,
            MR::Soa { .. } => 6,
            MR::Null(..) => 10,
            MR::Wks { .. } => 11,
            MR::Ptr(..) => 12,
            MR::Hinfo(..) => 13,
            MR::Minfo(..) => 14,
            MR::Mx(..) => 15,
            MR::Txt(..) => 16,
            MR::Aaaa(..) => 28,
            MR::Loc { .. } => 29,
            MR::Srv(..) => 33,
            MR::Naptr { .. } => 35,
            MR::Opt(..) => 41,
            MR::Apl { .. } => 42,
            MR::Ds { child: false, .. } => 43,
            MR::Sshfp(..) => 44,
            MR::IpSecKey { .. } => 45,
            MR::Rrsig { .. } => 46,
            MR::Nsec { .. } => 47,
            MR::DnsKey { child: false, .. } => 48,
            MR::Dhcid(..) => 49,
            MR::Tlsa(..) => 52,
            MR::Hip { .. } => 55,
            MR::Ds { child: true, .. } => 59,
            MR::DnsKey { child: true, .. } => 60,
            MR::OpenPgp(..) => 61,
            MR::Csync { .. } => 62,
            MR::Svcb { .. } => 64,
            MR::Eui48(..) => 108,
            MR::Eui64(..) => 109,
            MR::Tkey { .. } => 249,
            MR::Tsig { .. } => 250,
            MR::Uri(..) => 256,
            MR::Caa { .. } => 257,
        }
    }
}

pub fn type_name(code: u16) -> &'static str {
    match code {
        1 => "A",
        2 => "NS",
        5 => "CNAME",
        6 => "SOA",
        10 => "NULL",
        11 => "WKS",
        12 => "PTR",
        13 => "HINFO",
        14 => "MINFO",
        15 => "MX",
        16 => "TXT",
        28 => "AAAA",
        29 => "LOC",
        33 => "SRV",
        35 => "NAPTR",
        41 => "OPT",
        42 => "APL",
        43 => "DS",
        44 => "SSHFP",
        45 => "IPSECKEY",
        46 => "RRSIG",
        47 => "NSEC",
        48 => "DNSKEY",
        49 => "DHCID",
        52 => "TLSA",
        55 => "HIP",
        59 => "CDS",
        60 => "CDNSKEY",
        61 => "OPENPGPKEY",
        62 => "CSYNC",
        64 => "SVCB",
        108 => "EUI48",
        109 => "EUI64",
        249 => "TKEY",
        250 => "TSIG",
        256 => "URI",
        257 => "CAA",
        _ => "?",
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct MQ {
    pub name: Name,
    pub qtype: u16,
    pub qclass: u16,
    pub unicast: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MRec {
    pub name: Name,
    /// 15 bits, 16 bits for OPT
    pub class: u16,
    pub flush: bool,
    pub ttl: u32,
    pub rd: MR,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MMsg {
    pub id: u16,
    pub flags: u16,
    pub q: Vec<MQ>,
    pub s: [Vec<MRec>; 3],
}

impl MMsg {
    pub fn records(&self) -> impl Iterator<Item = &MRec> {
        self.s.iter().flatten()
    }
    pub fn count(&self) -> usize {
        self.q.len() + self.s.iter().map(|s| s.len()).sum::<usize>()
    }
}

/// Wire fields of record data.
pub enum W {
    /// Exact octets
    B(Vec<u8>),
    /// Domain name
    N(Name),
    /// EDNS options, any order
    Opts(BTreeMap<u16, Vec<u8>>),
    /// The absent gateway of IPSECKEY (nothing according to RFC 4025)
    GwNone,
}

/// Type bitmap in canonical form (RFC 4034 4.1.2)
pub fn bitmap(types: &BTreeSet<u16>) -> Vec<u8> {
    let mut windows: BTreeMap<u8, Vec<u8>> = BTreeMap::new();
    for t in types {
        let w = windows.entry((t >> 8) as u8).or_default();
        let byte = (t & 0xff) as usize / 8;
        if w.len() <= byte {
            w.resize(byte + 1, 0);
        }
        w[byte] |= 0x80 >> (t & 7);
    }
    let mut o = Vec::new();
    for (n, w) in windows {
        o.push(n);
        o.push(w.len() as u8);
        o.extend(w);
    }
    o
}

fn cs(o: &mut Vec<u8>, s: &[u8]) {
    o.push(s.len() as u8);
    o.extend(s);
}

pub fn fields(r: &MR) -> Vec<W> {
    let mut b = Vec::new();
    match r {
        MR::A(a) => vec![W::B(a.to_vec())],
        MR::Ns(n) | MR::Cname(n) | MR::Ptr(n) => vec![W::N(n.clone())],
        MR::Soa { mname, rname, nums } => {
            for n in nums {
                b.extend(n.to_be_bytes());
            }
            vec![W::N(mname.clone()), W::N(rname.clone()), W::B(b)]
        }
        MR::Null(d) | MR::OpenPgp(d) => vec![W::B(d.clone())],
        MR::Wks { addr, proto, bitmap } => {
            b.extend(addr);
            b.push(*proto);
            b.extend(bitmap);
            vec![W::B(b)]
        }
        MR::Hinfo(c, o) => {
            cs(&mut b, c);
            cs(&mut b, o);
            vec![W::B(b)]
        }
        MR::Minfo(x, y) => vec![W::N(x.clone()), W::N(y.clone())],
        MR::Mx(p, n) => vec![W::B(p.to_be_bytes().to_vec()), W::N(n.clone())],
        MR::Txt(t) => {
            for s in t {
                cs(&mut b, s.as_bytes());
            }
            vec![W::B(b)]
        }
        MR::Aaaa(a) => vec![W::B(a.to_vec())],
        MR::Loc { b: x, n } => {
            b.extend(x);
            for v in n {
                b.extend(v.to_be_bytes());
            }
            vec![W::B(b)]
        }
        MR::Srv(p, w, o, n) => {
            b.extend(p.to_be_bytes());
            b.extend(w.to_be_bytes());
            b.extend(o.to_be_bytes());
            vec![W::B(b), W::N(n.clone())]
        }
        MR::Naptr { order, pref, flags, service, regexp, repl } => {
            b.extend(order.to_be_bytes());
            b.extend(pref.to_be_bytes());
            cs(&mut b, flags);
            cs(&mut b, service);
            cs(&mut b, regexp.as_bytes());
            vec![W::B(b), W::N(repl.clone())]
        }
        MR::Opt(o) => vec![W::Opts(o.clone())],
        MR::Apl { prefix, neg, v6, addr } => {
            let mut a = if *v6 { addr.to_vec() } else { addr[..4].to_vec() };
            while a.last() == Some(&0) {
                a.pop();
            }
            b.extend((if *v6 { 2u16 } else { 1 }).to_be_bytes());
            b.push(*prefix);
            b.push(if *neg { 0x80 } else { 0 } | a.len() as u8);
            b.extend(a);
            vec![W::B(b)]
        }
        MR::Sshfp(a, t, f) => {
            b.push(*a);
            b.push(*t);
            b.extend(f);
            vec![W::B(b)]
        }
        MR::IpSecKey { prec, alg, gw, key } => {
            b.push(*prec);
            b.push(match gw {
                Gw::None => 0,
                Gw::V4(_) => 1,
                Gw::V6(_) => 2,
                Gw::Name(_) => 3,
            });
            b.push(*alg);
            let g = match gw {
                Gw::None => W::GwNone,
                Gw::V4(a) => W::B(a.to_vec()),
                Gw::V6(a) => W::B(a.to_vec()),
                Gw::Name(n) => W::N(n.clone()),
            };
            vec![W::B(b), g, W::B(key.clone())]
        }
        MR::Dhcid(id, d) => {
            b.extend(id.to_be_bytes());
            b.push(1);
            b.extend(d);
            vec![W::B(b)]
        }
        MR::Tlsa(u, s, m, d) => {
            b.extend([*u, *s, *m]);
            b.extend(d);
            vec![W::B(b)]
        }
        MR::Hip { alg, hit, key, rvs } => {
            b.push(hit.len() as u8);
            b.push(*alg);
            b.extend((key.len() as u16).to_be_bytes());
            b.extend(hit);
            b.extend(key);
            let mut v = vec![W::B(b)];
            v.extend(rvs.iter().map(|n| W::N(n.clone())));
            v
        }
        MR::Csync { serial, flags, types } => {
            b.extend(serial.to_be_bytes());
            b.extend(flags.to_be_bytes());
            b.extend(bitmap(types));
            vec![W::B(b)]
        }
        MR::Svcb { prio, target, params } => {
            for p in params {
                b.extend(p.encode());
            }
            vec![W::B(prio.to_be_bytes().to_vec()), W::N(target.clone()), W::B(b)]
        }
        MR::Eui48(e) => vec![W::B(e.to_vec())],
        MR::Eui64(e) => vec![W::B(e.to_vec())],
        MR::Tkey { alg, inception, expiration, mode, error, key, other } => {
            b.extend(inception.to_be_bytes());
            b.extend(expiration.to_be_bytes());
            b.extend(mode.to_be_bytes());
            b.extend(error.to_be_bytes());
            b.extend((key.len() as u16).to_be_bytes());
            b.extend(key);
            b.extend((other.len() as u16).to_be_bytes());
            b.extend(other);
            vec![W::N(alg.clone()), W::B(b)]
        }
        MR::Tsig { alg, time, fudge, mac, id, error, other } => {
            b.extend(&time.to_be_bytes()[2..]);
            b.extend(fudge.to_be_bytes());
            b.extend((mac.len() as u16).to_be_bytes());
            b.extend(mac);
            b.extend(id.to_be_bytes());
            b.extend(error.to_be_bytes());
            b.extend((other.len() as u16).to_be_bytes());
            b.extend(other);
            vec![W::N(alg.clone()), W::B(b)]
        }
        MR::Uri(p, w, t) => {
            b.extend(p.to_be_bytes());
            b.extend(w.to_be_bytes());
            b.extend(t);
            vec![W::B(b)]
        }
        MR::Caa { critical, tag, value } => {
            b.push(if *critical { 0x80 } else { 0 });
            cs(&mut b, tag.as_bytes());
            b.extend(value);
            vec![W::B(b)]
        }
        MR::Ds { tag, alg, digest_type, digest, .. } => {
            b.extend(tag.to_be_bytes());
            b.push(*alg);
            b.push(*digest_type);
            b.extend(digest);
            vec![W::B(b)]
        }
        MR::DnsKey { zone, sep, alg, key, .. } => {
            let f = (if *zone { 0x0100u16 } else { 0 }) | *sep as u16;
            b.extend(f.to_be_bytes());
            b.push(3);
            b.push(*alg);
            b.extend(key);
            vec![W::B(b)]
        }
        MR::Rrsig { covered, alg, labels, ttl, exp, inc, tag, signer, sig } => {
            b.extend(covered.to_be_bytes());
            b.push(*alg);
            b.push(*labels);
            b.extend(ttl.to_be_bytes());
            b.extend(exp.to_be_bytes());
            b.extend(inc.to_be_bytes());
            b.extend(tag.to_be_bytes());
            vec![W::B(b), W::N(signer.clone()), W::B(sig.clone())]
        }
        MR::Nsec { next, types } => vec![W::N(next.clone()), W::B(bitmap(types))],
    }
}

pub fn name_len(n: &Name) -> usize {
    1 + n.iter().map(|l| 1 + l.len()).sum::<usize>()
}

pub fn encode_name(n: &Name) -> Vec<u8> {
    let mut o = Vec::new();
    for l in n {
        o.push(l.len() as u8);
        o.extend(l);
    }
    o.push(0);
    o
}

pub fn lower(n: &Name) -> Name {
    n.iter().map(|l| l.to_ascii_lowercase()).collect()
}

/// Plain record data. `dot` selects the octet the library puts in place of an absent gateway.
pub fn rdata_plain(r: &MR, dot: bool) -> Vec<u8> {
    let mut o = Vec::new();
    for f in fields(r) {
        match f {
            W::B(b) => o.extend(b),
            W::N(n) => o.extend(encode_name(&n)),
            W::Opts(m) => {
                for (k, v) in m {
                    o.extend(k.to_be_bytes());
                    o.extend((v.len() as u16).to_be_bytes());
                    o.extend(v);
                }
            }
            W::GwNone => {
                if dot {
                    o.push(b'.')
                }
            }
        }
    }
    o
}

pub fn class_word(r: &MRec) -> u16 {
    r.class | if r.flush { 0x8000 } else { 0 }
}

// ---------------------------------------------------------------------------------------------
// encoder

pub enum Policy<'a> {
    Plain,
    /// Longest known tail, in the places where the library compresses
    Greedy,
    /// Any legal mixture, in all places
    Random(&'a mut Src),
}

#[derive(Clone, Debug)]
pub struct RecPos {
    pub start: usize,
    /// Position of the type field
    pub fixed: usize,
    /// Position of the RDLENGTH field
    pub rdlen: usize,
    pub rdata: usize,
    pub end: usize,
}

#[derive(Default, Clone, Debug)]
pub struct Enc {
    pub bytes: Vec<u8>,
    pub q: Vec<(usize, usize)>,
    pub r: Vec<RecPos>,
    pub names: Vec<usize>,
    pub pointers: usize,
}

struct Encoder<'a, 'b> {
    out: Enc,
    policy: &'a mut Policy<'b>,
    known: HashMap<Name, Vec<usize>>,
    dot: bool,
}

impl Encoder<'_, '_> {
    fn name(&mut self, n: &Name, comp: bool) {
        self.out.names.push(self.out.bytes.len());
        let mut starts: Vec<(usize, usize)> = Vec::new();
        let mut i = 0;
        loop {
            let rest: Name = n[i..].to_vec();
            let here = self.out.bytes.len();
            let target = match self.policy {
                Policy::Plain => None,
                Policy::Greedy => {
                    if comp && !rest.is_empty() {
                        self.known.get(&rest).map(|v| v[0])
                    } else {
                        None
                    }
                }
                Policy::Random(s) => match self.known.get(&rest) {
                    Some(v) if !rest.is_empty() || s.chance(1, 8) => {
                        if s.below(4) != 0 {
                            Some(*s.pick(v))
                        } else {
                            None
                        }
                    }
                    _ => None,
                },
            };
            let register = match self.policy {
                Policy::Plain => false,
                Policy::Greedy => comp && !rest.is_empty() && target.is_none(),
                Policy::Random(_) => true,
            };
            if register && here <= 0x3fff {
                starts.push((i, here));
            }
            if let Some(t) = target {
                self.out.pointers += 1;
                self.out.bytes.extend((0xC000u16 | t as u16).to_be_bytes());
                break;
            }
            if rest.is_empty() {
                self.out.bytes.push(0);
                break;
            }
            self.out.bytes.push(n[i].len() as u8);
            self.out.bytes.extend(&n[i]);
            i += 1;
        }
        for (i, pos) in starts {
            self.known.entry(n[i..].to_vec()).or_default().push(pos);
        }
    }

    fn question(&mut self, q: &MQ) {
        let start = self.out.bytes.len();
        self.name(&q.name, true);
        self.out.bytes.extend(q.qtype.to_be_bytes());
        self.out
            .bytes
            .extend((q.qclass | if q.unicast { 0x8000 } else { 0 }).to_be_bytes());
        self.out.q.push((start, self.out.bytes.len()));
    }

    fn record(&mut self, r: &MRec) {
        let start = self.out.bytes.len();
        self.name(&r.name, true);
        let fixed = self.out.bytes.len();
        self.out.bytes.extend(r.rd.code().to_be_bytes());
        self.out.bytes.extend(class_word(r).to_be_bytes());
        self.out.bytes.extend(r.ttl.to_be_bytes());
        let rdlen = self.out.bytes.len();
        self.out.bytes.extend([0, 0]);
        let rdata = self.out.bytes.len();
        let comp = COMPRESSIBLE.contains(&r.rd.code());
        for f in fields(&r.rd) {
            match f {
                W::B(b) => self.out.bytes.extend(b),
                W::N(n) => self.name(&n, comp),
                W::Opts(m) => {
                    let mut order: Vec<_> = m.into_iter().collect();
                    if let Policy::Random(s) = self.policy {
                        // any order
                        for i in (1..order.len()).rev() {
                            let j = s.below(i as u64 + 1) as usize;
                            order.swap(i, i - j);
                        }
                    }
                    for (k, v) in order {
                        self.out.bytes.extend(k.to_be_bytes());
                        self.out.bytes.extend((v.len() as u16).to_be_bytes());
                        self.out.bytes.extend(v);
                    }
                }
                W::GwNone => {
                    if self.dot {
                        self.out.bytes.push(b'.')
                    }
                }
            }
        }
        let end = self.out.bytes.len();
        let len = (end - rdata) as u16;
        self.out.bytes[rdlen..rdlen + 2].copy_from_slice(&len.to_be_bytes());
        self.out.r.push(RecPos { start, fixed, rdlen, rdata, end });
    }
}

/// Encodes a message; `dot` as for `rdata_plain`.
pub fn encode(m: &MMsg, policy: &mut Policy, dot: bool) -> Enc {
    let mut e = Encoder {
        out: Enc::default(),
        policy,
        known: HashMap::new(),
        dot,
    };
    e.out.bytes.extend(m.id.to_be_bytes());
    e.out.bytes.extend(m.flags.to_be_bytes());
    for n in [m.q.len(), m.s[0].len(), m.s[1].len(), m.s[2].len()] {
        e.out.bytes.extend((n as u16).to_be_bytes());
    }
    for q in &m.q {
        e.question(q);
    }
    for r in m.records() {
        e.record(r);
    }
    e.out
}

pub fn encode_plain(m: &MMsg) -> Vec<u8> {
    encode(m, &mut Policy::Plain, true).bytes
}

// ---------------------------------------------------------------------------------------------
// walker

pub struct WalkOpts<'a> {
    /// Pointers allowed at all
    pub compressed: bool,
    /// Names in the data of this type may be compressed
    pub may_compress: &'a dyn Fn(u16) -> bool,
    /// A name that was written before has to be a pointer
    pub full_names: bool,
}

#[derive(Default, Debug)]
pub struct WalkStats {
    pub pointers: u64,
    pub full_repeats: u64,
    pub beyond: u64,
    pub near_limit: u64,
    /// number of '.' octets found in place of an absent IPSECKEY gateway
    pub gw_dots: u64,
}

struct Walker<'a> {
    b: &'a [u8],
    pos: usize,
    o: &'a WalkOpts<'a>,
    /// label starts -> tail of the name that begins there
    starts: HashMap<usize, Name>,
    /// tails written in compressible places at addressable positions
    seen: HashMap<Name, usize>,
    st: WalkStats,
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn show_name(n: &Name) -> String {
    if n.is_empty() {
        return ".".into();
    }
    n.iter()
        .map(|l| l.iter().map(|c| if c.is_ascii_graphic() && *c != b'.' { (*c as char).to_string() } else { format!("\\{c:03}") }).collect::<String>())
        .collect::<Vec<_>>()
        .join(".")
}

impl Walker<'_> {
    fn take(&mut self, n: usize, what: &str) -> Result<&[u8], String> {
        ensure!(self.pos + n <= self.b.len(), "encoded message ends inside {what} (position {})", self.pos);
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }

    fn exact(&mut self, want: &[u8], what: &str) -> Result<(), String> {
        let pos = self.pos;
        let got = self.take(want.len(), what)?;
        if got != want {
            let i = (0..want.len()).find(|i| got[*i] != want[*i]).unwrap();
            return Err(format!(
                "{what}: octet {} at position {} is {:02x}, expected {:02x} (expected {} got {})",
                i,
                pos + i,
                got[i],
                want[i],
                hex(&want[i.saturating_sub(4)..(i + 12).min(want.len())]),
                hex(&got[i.saturating_sub(4)..(i + 12).min(got.len())])
            ));
        }
        Ok(())
    }

    fn name(&mut self, n: &Name, comp: bool, what: &str) -> Result<(), String> {
        let start = self.pos;
        let known_before = comp && !n.is_empty() && self.seen.contains_key(n);
        let mut mine: Vec<(usize, usize)> = Vec::new();
        let mut i = 0;
        loop {
            let here = self.pos;
            let c = self.take(1, what)?[0];
            if c & 0xC0 == 0xC0 {
                ensure!(self.o.compressed, "{what}: compression pointer in plain serialisation at {here}");
                ensure!(comp, "{what}: compression pointer at {here} where compression is not allowed");
                let lo = self.take(1, what)?[0];
                let t = ((c as usize & 0x3f) << 8) | lo as usize;
                ensure!(t < start, "{what}: pointer at {here} to {t} does not refer to an earlier position (name starts at {start})");
                let tail = self
                    .starts
                    .get(&t)
                    .ok_or_else(|| format!("{what}: pointer at {here} to {t}, where no label of a name begins"))?;
                ensure!(
                    tail == &n[i..].to_vec(),
                    "{what}: pointer at {here} to {t} leads to {} instead of {}",
                    show_name(tail),
                    show_name(&n[i..].to_vec())
                );
                self.st.pointers += 1;
                if t > 0x3f00 {
                    self.st.near_limit += 1;
                }
                if i < n.len() {
                    // the position of a pointer is no label
                }
                break;
            }
            if c == 0 {
                ensure!(i == n.len(), "{what}: name ends after {i} of {} labels ({})", n.len(), show_name(n));
                mine.push((i, here));
                break;
            }
            ensure!(i < n.len(), "{what}: name continues after its {} labels ({})", n.len(), show_name(n));
            ensure!(c as usize == n[i].len(), "{what}: label {i} of {} has length {c}, expected {}", show_name(n), n[i].len());
            mine.push((i, here));
            let label = n[i].clone();
            self.exact(&label, what)?;
            i += 1;
        }
        if known_before {
            self.st.full_repeats += 1;
            if self.o.full_names && self.o.compressed {
                ensure!(
                    self.pos - start == 2,
                    "{what}: name {} was written before at {} but takes {} octets at {start}",
                    show_name(n),
                    self.seen[n],
                    self.pos - start
                );
            }
        }
        if start > 0x3fff {
            self.st.beyond += 1;
        }
        for (i, pos) in mine {
            let tail = n[i..].to_vec();
            if comp && pos <= 0x3fff && !tail.is_empty() {
                self.seen.entry(tail.clone()).or_insert(pos);
            }
            self.starts.insert(pos, tail);
        }
        Ok(())
    }
}

/// Checks that `b` is an encoding of `m`: the unique plain one, or any legal compressed one.
pub fn walk(b: &[u8], m: &MMsg, o: &WalkOpts) -> Result<WalkStats, String> {
    let mut w = Walker {
        b,
        pos: 0,
        o,
        starts: HashMap::new(),
        seen: HashMap::new(),
        st: WalkStats::default(),
    };
    w.exact(&m.id.to_be_bytes(), "id")?;
    w.exact(&m.flags.to_be_bytes(), "flags")?;
    for (n, what) in [
        (m.q.len(), "question count"),
        (m.s[0].len(), "answer count"),
        (m.s[1].len(), "authority count"),
        (m.s[2].len(), "additional count"),
    ] {
        w.exact(&(n as u16).to_be_bytes(), what)?;
    }
    for (i, q) in m.q.iter().enumerate() {
        let what = format!("question {i}");
        w.name(&q.name, true, &format!("{what} name"))?;
        w.exact(&q.qtype.to_be_bytes(), &format!("{what} type"))?;
        w.exact(
            &(q.qclass | if q.unicast { 0x8000 } else { 0 }).to_be_bytes(),
            &format!("{what} class"),
        )?;
    }
    for (i, r) in m.records().enumerate() {
        let what = format!("record {i} ({})", type_name(r.rd.code()));
        w.name(&r.name, true, &format!("{what} owner"))?;
        w.exact(&r.rd.code().to_be_bytes(), &format!("{what} type"))?;
        w.exact(&class_word(r).to_be_bytes(), &format!("{what} class"))?;
        w.exact(&r.ttl.to_be_bytes(), &format!("{what} ttl"))?;
        let len = w.take(2, "rdlength")?;
        let len = u16::from_be_bytes([len[0], len[1]]) as usize;
        let start = w.pos;
        let comp = (o.may_compress)(r.rd.code());
        walk_fields(&mut w, &fields(&r.rd), comp, &what, start + len)?;
        ensure!(
            w.pos - start == len,
            "{what}: RDLENGTH is {len} but the data takes {} octets",
            w.pos - start
        );
    }
    ensure!(w.pos == b.len(), "{} octets after the end of the message", b.len() - w.pos);
    Ok(w.st)
}

fn walk_fields(w: &mut Walker, fs: &[W], comp: bool, what: &str, end: usize) -> Result<(), String> {
    for (i, f) in fs.iter().enumerate() {
        match f {
            W::B(b) => w.exact(b, &format!("{what} data"))?,
            W::N(n) => w.name(n, comp, &format!("{what} data name"))?,
            W::Opts(m) => {
                let mut left = m.clone();
                while !left.is_empty() {
                    let h = w.take(4, "option")?.to_vec();
                    let code = u16::from_be_bytes([h[0], h[1]]);
                    let len = u16::from_be_bytes([h[2], h[3]]);
                    let want = left
                        .remove(&code)
                        .ok_or_else(|| format!("{what}: option {code} is unexpected or repeated"))?;
                    ensure!(len as usize == want.len(), "{what}: option {code} has length {len}, expected {}", want.len());
                    w.exact(&want, &format!("{what} option {code}"))?;
                }
            }
            W::GwNone => {
                // Everything after it is the key
                let rest: usize = fs[i + 1..]
                    .iter()
                    .map(|f| if let W::B(b) = f { b.len() } else { 0 })
                    .sum();
                if w.pos + rest + 1 == end && w.b.get(w.pos) == Some(&b'.') {
                    w.pos += 1;
                    w.st.gw_dots += 1;
                }
            }
        }
    }
    Ok(())
}

/// Checks plain record data on its own.
pub fn walk_rdata(b: &[u8], r: &MR) -> Result<WalkStats, String> {
    let no = |_: u16| false;
    let o = WalkOpts {
        compressed: false,
        may_compress: &no,
        full_names: false,
    };
    let mut w = Walker {
        b,
        pos: 0,
        o: &o,
        starts: HashMap::new(),
        seen: HashMap::new(),
        st: WalkStats::default(),
    };
    let what = type_name(r.code());
    walk_fields(&mut w, &fields(r), false, what, b.len())?;
    ensure!(w.pos == b.len(), "{what}: {} octets too many", b.len() - w.pos);
    Ok(w.st)
}
