//! Generators of model values and byte strings.

use crate::model::*;
use crate::src::{Rng, Src};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

/// Literals of the library's source code (see check.py).
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub strs: Vec<Vec<u8>>,
}

pub static DICT: OnceLock<Dict> = OnceLock::new();

pub fn dict() -> &'static Dict {
    DICT.get_or_init(|| Dict {
        ints: vec![0, 1, 255, 16383],
        strs: vec![b"local".to_vec()],
    })
}

pub fn load_dict(path: &std::path::Path) {
    let mut d = Dict::default();
    if let Ok(text) = std::fs::read_to_string(path) {
        for line in text.lines() {
            if let Some(n) = line.strip_prefix("i ") {
                if let Ok(v) = n.trim().parse() {
                    d.ints.push(v);
                }
            } else if let Some(h) = line.strip_prefix("s ") {
                let h = h.trim();
                let b: Vec<u8> = (0..h.len() / 2)
                    .filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok())
                    .collect();
                d.strs.push(b);
            }
        }
    }
    if d.ints.is_empty() {
        d.ints.push(255);
    }
    if d.strs.is_empty() {
        d.strs.push(b"local".to_vec());
    }
    let _ = DICT.set(d);
}

fn mask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1 << bits) - 1
    }
}

pub fn dict_int(r: &mut Rng) -> u64 {
    let d = &dict().ints;
    let v = d[r.below(d.len() as u64) as usize];
    match r.below(6) {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        _ => v,
    }
}

pub fn rand_int(r: &mut Rng, bits: u32) -> u64 {
    let m = mask(bits);
    m & match r.below(20) {
        0..=5 => r.next(),
        6..=8 => r.below(17),
        9..=11 => (1u64.wrapping_shl(r.below(bits as u64 + 1) as u32)).wrapping_add(r.below(3)).wrapping_sub(1),
        12..=13 => m.wrapping_sub(r.below(4)),
        14..=16 => dict_int(r),
        _ => {
            let mut v = 0u64;
            for _ in 0..bits.div_ceil(8) {
                let b = [0, 0, 1, 0x7f, 0x80, 0xff, 0xc0, r.next() as u8 as u64][r.below(8) as usize];
                v = v << 8 | b;
            }
            v
        }
    }
}

pub const LENS: &[u64] = &[
    0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 20, 31, 32, 33, 48, 62, 63, 64, 65, 96, 127, 128, 129, 191, 192, 193, 200, 253, 254,
    255, 256, 257, 300,
];

pub fn rand_len(r: &mut Rng, max: u64) -> u64 {
    let v = match r.below(20) {
        0..=10 => r.below(13),
        11..=14 => LENS[r.below(LENS.len() as u64) as usize],
        15 => dict_int(r) % 2048,
        16 => max.saturating_sub(r.below(3)) % 400,
        _ => r.below(300),
    };
    v.min(max)
}

pub struct G<'a> {
    pub s: &'a mut Src,
    pub pool: Vec<Name>,
    pub dnssec: bool,
    pub mdns: bool,
    /// IPSECKEY without gateway
    pub gw_none: bool,
    /// Longest variable part of record data (usually)
    pub big: bool,
    pub types: Option<Vec<u16>>,
    recent: [u64; 4],
    blobs: Vec<Vec<u8>>,
}

pub const HAS_DNSSEC: bool = cfg!(feature = "dnssec");
pub const HAS_MDNS: bool = cfg!(feature = "mdns");

impl<'a> G<'a> {
    pub fn new(s: &'a mut Src) -> Self {
        G {
            s,
            pool: Vec::new(),
            dnssec: HAS_DNSSEC,
            mdns: HAS_MDNS,
            gw_none: true,
            big: false,
            types: None,
            recent: [0; 4],
            blobs: Vec::new(),
        }
    }

    pub fn int(&mut self, bits: u32) -> u64 {
        let n = if bits >= 64 { 0 } else { 1u64 << bits };
        let recent = self.recent;
        let v = self.s.draw(n, |r| {
            if r.below(12) == 0 {
                // the same number as shortly before, or a neighbour
                let v = recent[r.below(4) as usize];
                let v = match r.below(4) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    _ => v,
                };
                v & mask(bits)
            } else {
                rand_int(r, bits)
            }
        });
        self.recent.rotate_right(1);
        self.recent[0] = v;
        v
    }
    pub fn u8(&mut self) -> u8 {
        self.int(8) as u8
    }
    pub fn u16(&mut self) -> u16 {
        self.int(16) as u16
    }
    pub fn u32(&mut self) -> u32 {
        self.int(32) as u32
    }

    pub fn length(&mut self, max: usize) -> usize {
        self.s.draw(max as u64 + 1, |r| rand_len(r, max as u64)) as usize
    }

    pub fn bytes_len(&mut self, n: usize) -> Vec<u8> {
        if n <= 48 {
            (0..n)
                .map(|_| {
                    self.s.draw(256, |r| match r.below(8) {
                        0 => [0, 0xff, 0xc0, b'.' as u64, 0x80, 0x7f, 1, 0x3f][r.below(8) as usize],
                        1 | 2 => b'a' as u64 + r.below(26),
                        3 => dict_int(r),
                        _ => r.below(256),
                    }) as u8
                })
                .collect()
        } else {
            let seed = self.s.below(1 << 16);
            fill(seed, n)
        }
    }

    /// Variable length octets.
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        // the same octets again, or nearly
        if !self.blobs.is_empty() && self.s.chance(1, 12) {
            let i = self.s.below(self.blobs.len() as u64) as usize;
            let mut b = self.blobs[i].clone();
            match self.s.below(4) {
                0 => {
                    b.pop();
                }
                1 => b.push(self.s.below(256) as u8),
                _ => {}
            }
            b.truncate(max);
            return b;
        }
        let b = self.fresh_blob(max);
        if self.blobs.len() < 8 && b.len() < 300 {
            self.blobs.push(b.clone());
        }
        b
    }

    fn fresh_blob(&mut self, max: usize) -> Vec<u8> {
        if self.big && max > 1000 && self.s.chance(1, 3) {
            let n = self.s.draw(max as u64 + 1, |r| match r.below(4) {
                0 => max as u64 - r.below(3).min(max as u64),
                1 => (1 << r.below(17)) + r.below(3),
                _ => r.below(max as u64 + 1),
            });
            return self.bytes_len(n as usize);
        }
        let tmpl: Option<Vec<u8>> = self.s.rng().and_then(|r| {
            (r.below(10) == 0).then(|| {
                let d = &dict().strs;
                d[r.below(d.len() as u64) as usize].clone()
            })
        });
        match tmpl {
            Some(t) if t.len() <= max && t.len() <= 48 => {
                self.s.draw(max as u64 + 1, |_| t.len() as u64);
                t.iter().map(|b| self.s.draw(256, |_| *b as u64) as u8).collect()
            }
            _ => {
                let n = self.length(max);
                self.bytes_len(n)
            }
        }
    }

    /// Text of at most `max` octets of UTF-8.
    pub fn text(&mut self, max: usize) -> String {
        let n = self.length(max);
        if n > 60 {
            let seed = self.s.below(1 << 16);
            let mut t: String = fill(seed, n).iter().map(|b| (b'a' + b % 26) as char).collect();
            if self.s.chance(1, 3) {
                // multi-octet characters up to the limit
                t = "é漢".repeat(n / 5);
                while t.len() < n {
                    t.push('x');
                }
            }
            return t;
        }
        let mut t = String::new();
        while t.len() < n {
            let c = match self.s.weighted(&[10, 3, 2, 1, 1]) {
                0 => (b'a' + self.s.below(26) as u8) as char,
                1 => (0x20 + self.s.below(95) as u8) as char,
                2 => *self.s.pick(&['\0', '.', '"', '\\', '\n', '\u{7f}', '=', ';', '*']),
                3 => *self.s.pick(&['é', 'ß', '\u{80}', '\u{7ff}']),
                _ => *self.s.pick(&['漢', '😀', '\u{fffd}', '\u{ffff}', '\u{10ffff}']),
            };
            if t.len() + c.len_utf8() > max {
                break;
            }
            t.push(c);
        }
        t
    }

    pub fn label(&mut self) -> Vec<u8> {
        let tmpl: Option<Vec<u8>> = self.s.rng().and_then(|r| {
            (r.below(8) == 0).then(|| {
                let d = &dict().strs;
                let w = &d[r.below(d.len() as u64) as usize];
                w.split(|c| *c == b'.').next().unwrap().to_vec()
            })
        });
        if let Some(t) = tmpl {
            if !t.is_empty() && t.len() <= 40 {
                let n = self.s.draw(63, |_| t.len() as u64 - 1) as usize + 1;
                let style = self.s.draw(6, |_| 1);
                if style != 1 {
                    // a tape with holes may give the style
                    return self.styled(n, style);
                }
                return (0..n).map(|i| self.s.draw(256, |_| t[i] as u64) as u8).collect();
            }
        }
        let n = self.s.draw(63, |r| match r.below(12) {
            0 => 62,
            1 => 61,
            2 => r.below(63),
            3 => dict_int(r),
            _ => r.below(6),
        }) as usize
            + 1;
        let style = self.s.draw(6, |r| [0, 0, 0, 1, 2, 2, 3, 4][r.below(8) as usize]);
        self.styled(n, style)
    }

    /// A label of `n` octets; style 0: lower case, 1: any octets, 2: few letters, 3: mixed case.
    fn styled(&mut self, n: usize, style: u64) -> Vec<u8> {
        if n > 40 && style != 1 {
            let c = self.s.below(26) as u8;
            return vec![b'a' + c; n];
        }
        (0..n)
            .map(|_| match style {
                0 => b'a' + self.s.below(26) as u8,
                2 => b'a' + self.s.below(2) as u8,
                3 => {
                    let c = b'a' + self.s.below(26) as u8;
                    if self.s.bool() {
                        c.to_ascii_uppercase()
                    } else {
                        c
                    }
                }
                4 => *self.s.pick(b"-_0123456789*"),
                _ => self.s.draw(256, |r| {
                    if r.below(3) == 0 {
                        [b'.' as u64, 0, 0xc0, 0xff, b'\\' as u64, 0x80, b'@' as u64, b' ' as u64][r.below(8) as usize]
                    } else {
                        r.below(256)
                    }
                }) as u8,
            })
            .collect()
    }

    fn pooled(&mut self) -> Name {
        let i = self.s.below(self.pool.len() as u64) as usize;
        self.pool[i].clone()
    }

    /// A valid name (labels of 1 to 63 octets, at most 255 octets).
    pub fn name(&mut self) -> Name {
        let have = !self.pool.is_empty();
        let kind = if have {
            self.s.weighted(&[6, 10, 8, 3, 3, 1, 1, 2, 1])
        } else {
            [0, 5, 6, 7][self.s.weighted(&[12, 1, 1, 1])]
        };
        let mut n: Name = match kind {
            // fresh
            0 => {
                let mut n = Vec::new();
                while self.s.more(n.len(), 3, 12) {
                    n.push(self.label());
                }
                if n.is_empty() {
                    n.push(self.label());
                }
                n
            }
            // the same name again
            1 => return self.pooled(),
            // labels in front of a tail of a known name
            2 => {
                let p = self.pooled();
                let i = self.s.below(p.len() as u64 + 1) as usize;
                let mut n: Name = Vec::new();
                while n.is_empty() || self.s.more(n.len(), 1, 4) {
                    n.push(self.label());
                }
                n.extend_from_slice(&p[i..]);
                n
            }
            // tail of a known name
            3 => {
                let p = self.pooled();
                let i = self.s.below(p.len() as u64 + 1) as usize;
                p[i..].to_vec()
            }
            // case variant or moved label boundary
            4 => {
                let mut p = self.pooled();
                if p.is_empty() {
                    p
                } else {
                    let i = self.s.below(p.len() as u64) as usize;
                    match self.s.below(4) {
                        0 => {
                            let j = self.s.below(p[i].len() as u64) as usize;
                            p[i][j] ^= 0x20;
                            p
                        }
                        1 => {
                            // last octet of one label moves to the next one
                            if i + 1 < p.len() && p[i].len() > 1 && p[i + 1].len() < 63 {
                                let c = p[i].pop().unwrap();
                                p[i + 1].insert(0, c);
                            }
                            p
                        }
                        2 => {
                            // two labels become one, with or without a dot in it
                            if i + 1 < p.len() && p[i].len() + p[i + 1].len() < 62 {
                                let l = p.remove(i + 1);
                                if self.s.bool() {
                                    p[i].push(b'.');
                                }
                                p[i].extend(l);
                            }
                            p
                        }
                        _ => {
                            let j = self.s.below(p[i].len() as u64) as usize;
                            p[i][j] = self.u8();
                            p
                        }
                    }
                }
            }
            // root
            5 => return vec![],
            // as long as possible, or nearly
            6 => {
                let total = 255 - self.s.below(4) as usize;
                let mut n: Name = if have && self.s.bool() { self.pooled() } else { vec![] };
                while name_len(&n) > total {
                    n.remove(0);
                }
                let many = self.s.bool();
                while name_len(&n) < total {
                    let room = total - name_len(&n);
                    let l = if room == 1 {
                        break;
                    } else if many {
                        if room == 3 {
                            2
                        } else {
                            1
                        }
                    } else if room > 66 {
                        63
                    } else if room > 64 {
                        31
                    } else {
                        room - 1
                    };
                    let c = b'a' + self.s.below(4) as u8;
                    n.insert(0, vec![c; l]);
                }
                return self.keep(n);
            }
            // link local and similar well known tails
            7 => {
                let mut n: Name = Vec::new();
                while self.s.more(n.len(), 1, 3) {
                    n.push(self.label());
                }
                let tail: &[u8] = *self.s.pick(&[
                    &b"local"[..],
                    b"local",
                    b"Local",
                    b"LOCAL",
                    b"arpa",
                    b"localx",
                    b"xlocal",
                    b"loca",
                    b"ocal",
                    b".local",
                    b"b.local",
                    b"-local",
                    b"local.",
                    b"local\0",
                    b"localdomain",
                    b"localhost",
                ]);
                n.push(tail.to_vec());
                if self.s.chance(1, 6) {
                    n.push(self.label());
                }
                n
            }
            // wildcard
            _ => {
                let mut n = self.pooled();
                n.insert(0, b"*".to_vec());
                n
            }
        };
        while name_len(&n) > 255 {
            n.remove(0);
        }
        self.keep(n)
    }

    fn keep(&mut self, n: Name) -> Name {
        if self.pool.len() < 24 {
            self.pool.push(n.clone());
        }
        n
    }

    pub fn all_types(&self) -> Vec<u16> {
        let mut v = BASE_TYPES.to_vec();
        if self.dnssec {
            v.extend(DNSSEC_TYPES);
        }
        v
    }

    pub fn type_set(&mut self) -> BTreeSet<u16> {
        let all = self.all_types();
        let mut t = BTreeSet::new();
        match self.s.weighted(&[6, 1, 2]) {
            0 => {
                while self.s.more(t.len(), 4, 40) {
                    t.insert(*self.s.pick(&all));
                }
            }
            1 => t.extend(all),
            _ => {
                for c in all {
                    if self.s.bool() {
                        t.insert(c);
                    }
                }
            }
        }
        t
    }

    fn arr<const N: usize>(&mut self) -> [u8; N] {
        let mut a = [0u8; N];
        for x in a.iter_mut() {
            *x = self.u8();
        }
        a
    }

    /// IPv4 address, often one with a meaning of its own.
    pub fn v4(&mut self) -> [u8; 4] {
        if self.s.chance(1, 2) {
            return self.arr();
        }
        const SPECIAL: &[[u8; 4]] = &[
            [0, 0, 0, 0],
            [127, 0, 0, 1],
            [255, 255, 255, 255],
            [224, 0, 0, 251],
            [239, 255, 255, 250],
            [169, 254, 1, 1],
            [10, 0, 0, 1],
            [192, 168, 0, 0],
            [172, 16, 0, 1],
            [100, 64, 0, 1],
            [192, 0, 2, 1],
            [198, 18, 0, 1],
            [240, 0, 0, 1],
            [1, 0, 0, 0],
            [0, 0, 0, 1],
            [0, 255, 0, 0],
        ];
        let mut a = *self.s.pick(SPECIAL);
        if self.s.chance(1, 4) {
            let i = self.s.below(4) as usize;
            a[i] = self.u8();
        }
        a
    }

    /// IPv6 address, often one with a meaning of its own.
    pub fn v6(&mut self) -> [u8; 16] {
        let mut a = [0u8; 16];
        match self.s.weighted(&[6, 2, 3, 1, 1, 1, 1, 1, 1, 1, 1]) {
            0 => a = self.arr(),
            // unspecified, loopback or nearly
            1 => a[15] = self.u8(),
            // IPv4-mapped
            2 => {
                a[10] = 0xff;
                a[11] = 0xff;
                let v = self.v4();
                a[12..].copy_from_slice(&v);
            }
            // IPv4-compatible
            3 => {
                let v = self.v4();
                a[12..].copy_from_slice(&v);
            }
            // multicast
            4 => {
                a[0] = 0xff;
                a[1] = *self.s.pick(&[0x01, 0x02, 0x05, 0x08, 0x0e, 0x12, 0x00]);
                a[15] = *self.s.pick(&[1, 2, 0xfb, 0]);
            }
            // link local
            5 => {
                a[0] = 0xfe;
                a[1] = 0x80 | self.s.below(128) as u8;
                a[15] = self.u8();
            }
            // unique local
            6 => {
                a = self.arr();
                a[0] = 0xfc | self.s.below(2) as u8;
            }
            // documentation
            7 => {
                a[..4].copy_from_slice(&[0x20, 0x01, 0x0d, 0xb8]);
                a[15] = self.u8();
            }
            // 6to4, Teredo
            8 => {
                a = self.arr();
                if self.s.bool() {
                    a[..2].copy_from_slice(&[0x20, 0x02]);
                } else {
                    a[..4].copy_from_slice(&[0x20, 0x01, 0, 0]);
                }
            }
            // NAT64
            9 => {
                a[..4].copy_from_slice(&[0, 0x64, 0xff, 0x9b]);
                let v = self.v4();
                a[12..].copy_from_slice(&v);
            }
            _ => a = [0xff; 16],
        }
        a
    }

    pub fn pick_type(&mut self) -> u16 {
        match &self.types {
            Some(t) => *self.s.pick(t),
            None => {
                let all = self.all_types();
                // Types with compressible names are the interesting ones for messages
                if self.s.chance(1, 3) {
                    *self.s.pick(&[2u16, 5, 6, 12, 14, 15, 33, 35])
                } else {
                    *self.s.pick(&all)
                }
            }
        }
    }

    /// Rarely, a number of items that is larger than usual.
    fn many(&mut self) -> Option<usize> {
        if !self.s.chance(1, 32) {
            return None;
        }
        Some(match self.s.below(4) {
            0 => 13 + self.s.below(8),
            1 => 30 + self.s.below(8),
            2 => 60 + self.s.below(70),
            _ => 250 + self.s.below(20),
        } as usize)
    }

    pub fn param(&mut self, key: u16) -> P {
        match key {
            0 => {
                let mut k = BTreeSet::new();
                if let Some(n) = self.many() {
                    let from = self.s.below(3) as u16;
                    k.extend((0..n.min(255) as u16).map(|i| if i < 7 { i } else { 65280 + (i - from) % 255 }));
                }
                while self.s.more(k.len(), 2, 12) {
                    k.insert(self.param_key());
                }
                P::Mandatory(k)
            }
            1 => {
                let mut a = Vec::new();
                if let Some(n) = self.many() {
                    let seed = self.s.below(1 << 16);
                    a.extend((0..n as u64).map(|i| fill(seed + i, 1 + (i % 9) as usize)));
                }
                while self.s.more(a.len(), 2, 8) {
                    a.push(self.blob(255));
                }
                P::Alpn(a)
            }
            2 => P::NoDefaultAlpn,
            3 => P::Port(self.u16()),
            4 => P::V4(self.v4()),
            5 => P::Ech(self.blob(400)),
            6 => P::V6(self.v6()),
            65535 => P::Invalid,
            k => P::Private(k, self.blob(400)),
        }
    }

    pub fn param_key(&mut self) -> u16 {
        match self.s.weighted(&[8, 3, 1]) {
            0 => self.s.below(7) as u16,
            1 => 65280 + self.s.draw(255, |r| [0, 254, 1, 253, r.below(255)][r.below(5) as usize]) as u16,
            _ => 65535,
        }
    }

    pub fn rdata(&mut self, code: u16) -> MR {
        let big = if self.big { 60000 } else { 500 };
        match code {
            1 => MR::A(self.v4()),
            2 => MR::Ns(self.name()),
            5 => MR::Cname(self.name()),
            6 => MR::Soa {
                mname: self.name(),
                rname: self.name(),
                nums: [self.u32(), self.u32(), self.u32(), self.u32(), self.u32()],
            },
            10 => MR::Null(self.blob(if self.big { 65535 } else { 500 })),
            11 => MR::Wks {
                addr: self.v4(),
                proto: self.u8(),
                bitmap: self.blob(big),
            },
            12 => MR::Ptr(self.name()),
            13 => MR::Hinfo(self.blob(255), self.blob(255)),
            14 => MR::Minfo(self.name(), self.name()),
            15 => MR::Mx(self.u16(), self.name()),
            16 => {
                let mut t = Vec::new();
                let max = if self.big { 200 } else { 8 };
                if let Some(n) = self.many() {
                    let e = self.s.below(4) as usize;
                    t.extend((0..n).map(|i| if i % 4 == e { String::new() } else { format!("key{i}=value") }));
                }
                while self.s.more(t.len(), 2, max) {
                    t.push(self.text(255));
                }
                if t.is_empty() && !self.s.chance(1, 8) {
                    t.push(self.text(255));
                }
                MR::Txt(t)
            }
            28 => MR::Aaaa(self.v6()),
            29 => MR::Loc {
                b: self.arr(),
                n: [self.u32(), self.u32(), self.u32()],
            },
            33 => MR::Srv(self.u16(), self.u16(), self.u16(), self.name()),
            35 => {
                let mut flags = Vec::new();
                if let Some(n) = self.many() {
                    let n = n.min(255);
                    let seed = self.s.below(1 << 16);
                    flags = fill(seed, n).iter().map(|b| b"SAUP"[(*b & 3) as usize]).collect();
                }
                while self.s.more(flags.len(), 1, 6) {
                    flags.push(*self.s.pick(b"SAUP"));
                }
                MR::Naptr {
                    order: self.u16(),
                    pref: self.u16(),
                    flags,
                    service: self.blob(255),
                    regexp: self.text(255),
                    repl: self.name(),
                }
            }
            41 => {
                let mut m = BTreeMap::new();
                if let Some(n) = self.many() {
                    let from = self.u16();
                    let step = 1 + self.s.below(300) as u16;
                    for i in 0..n as u16 {
                        m.insert(from.wrapping_add(i.wrapping_mul(step)), fill(i as u64, (i % 7) as usize));
                    }
                }
                while self.s.more(m.len(), 2, 12) {
                    let k = self.u16();
                    let v = self.blob(if self.big { 5000 } else { 300 });
                    m.insert(k, v);
                }
                MR::Opt(m)
            }
            42 => {
                let v6 = self.s.bool();
                let mut addr: [u8; 16] = self.v6();
                if !v6 {
                    let a = self.v4();
                    addr[..4].copy_from_slice(&a);
                }
                let cut = self.s.below(17) as usize;
                for a in addr.iter_mut().skip(16 - cut) {
                    *a = 0;
                }
                if !v6 {
                    for a in addr.iter_mut().skip(4) {
                        *a = 0;
                    }
                    if self.s.bool() {
                        addr[3] = 0;
                    }
                }
                MR::Apl {
                    prefix: self.u8(),
                    neg: self.s.bool(),
                    v6,
                    addr,
                }
            }
            44 => MR::Sshfp(self.s.below(6) as u8, self.s.below(2) as u8, self.blob(big)),
            45 => {
                let k = self.s.weighted(&[2, 2, 2, 1]);
                let gw = match k {
                    0 => Gw::V4(self.v4()),
                    1 => Gw::V6(self.v6()),
                    3 if self.gw_none => Gw::None,
                    _ => Gw::Name(self.name()),
                };
                MR::IpSecKey {
                    prec: self.u8(),
                    alg: self.s.below(6) as u8,
                    gw,
                    key: self.blob(big),
                }
            }
            49 => MR::Dhcid(self.s.below(3) as u16, self.blob(big)),
            52 => MR::Tlsa(self.s.below(4) as u8, self.s.below(2) as u8, self.s.below(3) as u8, self.blob(big)),
            55 => {
                let mut rvs = Vec::new();
                if let Some(n) = self.many() {
                    rvs.extend((0..n).map(|i| vec![format!("rvs{i}").into_bytes(), b"example".to_vec()]));
                }
                while self.s.more(rvs.len(), 1, 6) {
                    rvs.push(self.name());
                }
                MR::Hip {
                    alg: self.s.below(6) as u8,
                    hit: self.blob(255),
                    key: self.blob(big),
                    rvs,
                }
            }
            61 => MR::OpenPgp(self.blob(if self.big { 65535 } else { 500 })),
            62 => MR::Csync {
                serial: self.u32(),
                flags: self.s.below(4) as u16,
                types: self.type_set(),
            },
            64 => {
                let mut p: BTreeMap<u16, P> = BTreeMap::new();
                if let Some(n) = self.many() {
                    for i in 0..n.min(255) as u16 {
                        p.insert(65280 + i, P::Private(65280 + i, fill(i as u64, (i % 6) as usize)));
                    }
                }
                while self.s.more(p.len(), 2, 10) {
                    let k = self.param_key();
                    let v = self.param(k);
                    p.insert(k, v);
                }
                MR::Svcb {
                    prio: self.u16(),
                    target: self.name(),
                    params: p.into_values().collect(),
                }
            }
            108 => MR::Eui48(self.arr()),
            109 => MR::Eui64(self.arr()),
            249 => MR::Tkey {
                alg: self.name(),
                inception: self.u32(),
                expiration: self.u32(),
                mode: 1 + self.s.draw(65534, |r| if r.below(2) == 0 { r.below(7) } else { rand_int(r, 16) }) as u16,
                error: self.s.below(22) as u16,
                key: self.blob(if self.big { 30000 } else { 400 }),
                other: self.blob(if self.big { 30000 } else { 400 }),
            },
            250 => MR::Tsig {
                alg: self.name(),
                time: self.int(48),
                fudge: self.u16(),
                mac: self.blob(if self.big { 30000 } else { 400 }),
                id: self.u16(),
                error: *self.s.pick(TSIG_ERRORS),
                other: self.blob(if self.big { 30000 } else { 400 }),
            },
            256 => MR::Uri(self.u16(), self.u16(), self.blob(big)),
            257 => {
                let mut tag = self.text(255);
                if tag.is_empty() {
                    tag.push('t');
                }
                MR::Caa {
                    critical: self.s.bool(),
                    tag,
                    value: self.blob(big),
                }
            }
            43 | 59 => MR::Ds {
                child: code == 59,
                tag: self.u16(),
                alg: *self.s.pick(DNSSEC_ALGS),
                digest_type: *self.s.pick(DIGEST_TYPES),
                digest: self.blob(big),
            },
            48 | 60 => MR::DnsKey {
                child: code == 60,
                zone: self.s.bool(),
                sep: self.s.bool(),
                alg: *self.s.pick(DNSSEC_ALGS),
                key: self.blob(big),
            },
            46 => {
                let all = self.all_types();
                MR::Rrsig {
                    covered: *self.s.pick(&all),
                    alg: *self.s.pick(DNSSEC_ALGS),
                    labels: self.u8(),
                    ttl: self.u32(),
                    exp: self.u32(),
                    inc: self.u32(),
                    tag: self.u16(),
                    signer: self.name(),
                    sig: self.blob(big),
                }
            }
            47 => MR::Nsec {
                next: self.name(),
                types: self.type_set(),
            },
            _ => unreachable!("type {code}"),
        }
    }

    pub fn question(&mut self) -> MQ {
        let mut all = self.all_types();
        all.extend(QUERY_TYPES);
        MQ {
            name: self.name(),
            qtype: *self.s.pick(&all),
            qclass: *self.s.pick(&[1u16, 2, 3, 4, 254, 255]),
            unicast: self.mdns && self.s.bool(),
        }
    }

    pub fn class(&mut self) -> u16 {
        if self.s.chance(1, 5) {
            let c = self.int(15) as u16;
            c
        } else {
            *self.s.pick(&[1u16, 1, 2, 3, 4])
        }
    }

    pub fn record(&mut self) -> MRec {
        let code = self.pick_type();
        self.record_of(code)
    }

    /// A new record, or one that repeats an earlier one in all or most respects.
    fn record_near(&mut self, m: &MMsg) -> MRec {
        let n: usize = m.s.iter().map(|s| s.len()).sum();
        if n == 0 || !self.s.chance(1, 10) {
            return self.record();
        }
        let i = self.s.below(n as u64) as usize;
        let mut r = m.s.iter().flatten().nth(i).unwrap().clone();
        let opt = matches!(r.rd, MR::Opt(_));
        match self.s.below(6) {
            0 | 1 => {}
            2 => r.name = self.name(),
            3 => r.ttl = self.u32(),
            4 => r.class = if opt { self.u16() } else { self.class() },
            _ => r.flush = !opt && self.mdns && !r.flush,
        }
        r
    }

    pub fn record_of(&mut self, code: u16) -> MRec {
        let name = self.name();
        let opt = code == 41;
        MRec {
            name,
            class: if opt { self.u16() } else { self.class() },
            flush: !opt && self.mdns && self.s.bool(),
            ttl: self.u32(),
            rd: self.rdata(code),
        }
    }

    /// Any flag word with an assigned response code.
    pub fn flags(&mut self) -> u16 {
        let f = self.int(16) as u16;
        if f & 15 > 10 {
            f & !8
        } else {
            f
        }
    }

    /// A whole message of ordinary size.
    pub fn message(&mut self) -> MMsg {
        let id = self.u16();
        let mut m = MMsg {
            id,
            flags: self.flags(),
            ..Default::default()
        };
        let mean = [1, 2, 5, 0][self.s.weighted(&[4, 3, 2, 1])];
        while self.s.more(m.q.len(), mean.min(2), 12) {
            let q = if !m.q.is_empty() && self.s.chance(1, 10) {
                let mut q = self.s.pick(&m.q).clone();
                if self.s.bool() {
                    let other = self.question();
                    match self.s.below(3) {
                        0 => q.qtype = other.qtype,
                        1 => q.qclass = other.qclass,
                        _ => q.unicast = other.unicast,
                    }
                }
                q
            } else {
                self.question()
            };
            m.q.push(q);
        }
        // Sometimes only a few types, so that they meet
        if self.types.is_none() && self.s.chance(1, 3) {
            let all = self.all_types();
            let mut t = vec![*self.s.pick(&all)];
            while self.s.more(t.len(), 1, 4) {
                t.push(*self.s.pick(&all));
            }
            self.types = Some(t);
        }
        for i in 0..3 {
            while self.s.more(m.s[i].len(), mean, 30) {
                let r = self.record_near(&m);
                m.s[i].push(r);
            }
        }
        m
    }

    /// Padding record that makes the next record begin at `target` (greedy encoding).
    fn pad_to(&mut self, m: &mut MMsg, section: usize, target: usize) {
        let mut part = m.clone();
        for s in part.s.iter_mut().skip(section + 1) {
            s.clear();
        }
        let len = encode(&part, &mut Policy::Greedy, true).bytes.len();
        if target > len + 11 {
            let n = (target - len - 11).min(65535);
            m.s[section].push(MRec {
                name: vec![],
                class: 1,
                flush: false,
                ttl: 0,
                rd: MR::Null(vec![0; n]),
            });
        }
    }

    /// A message with names on both sides of position 0x3fff.
    pub fn limit_message(&mut self) -> MMsg {
        let old = self.types.take();
        let mut m = self.message();
        self.types = Some(vec![2, 5, 6, 12, 14, 15, 33, 35]);
        if self.dnssec && self.s.bool() {
            self.types.as_mut().unwrap().push(47);
        }
        for i in 0..3 {
            m.s[i].truncate(6);
        }
        let section = self.s.below(3) as usize;
        let target = 0x3fff + 20 - self.s.below(140) as usize;
        for s in m.s.iter_mut().skip(section + 1) {
            s.clear();
        }
        self.pad_to(&mut m, section, target);
        for sec in section..3 {
            let n = self.s.below(8) as usize;
            for _ in 0..n {
                let r = self.record();
                m.s[sec].push(r);
            }
        }
        self.types = old;
        m
    }

    /// A message of middling size: names and records around an arbitrary position.
    pub fn padded_message(&mut self) -> MMsg {
        let mut m = self.message();
        let section = self.s.below(3) as usize;
        let rest: Vec<Vec<MRec>> = m.s.iter_mut().skip(section).map(std::mem::take).collect();
        let target = self.s.draw(40_000, |r| match r.below(4) {
            0 => r.below(20_000),
            1 => dict_int(r).wrapping_sub(r.below(60)) % 20_000,
            _ => (1u64 << (8 + r.below(8))).wrapping_sub(r.below(60)).wrapping_add(10),
        }) as usize;
        if self.s.chance(1, 3) {
            // many small entries
            let base = self.record_of(*[1u16, 2, 16][..].get(section).unwrap_or(&1));
            let one = 12 + name_len(&base.name) + rdata_plain(&base.rd, true).len();
            for i in 0..(target / one).min(600) {
                let mut r = base.clone();
                r.ttl = i as u32;
                m.s[section].push(r);
            }
        }
        self.pad_to(&mut m, section, target);
        for (s, r) in m.s.iter_mut().skip(section).zip(rest) {
            s.extend(r);
        }
        let n = 1 + self.s.below(5) as usize;
        for _ in 0..n {
            let r = self.record_near(&m);
            m.s[2].push(r);
        }
        m
    }

    /// Many questions, so that they lie at high positions as well.
    pub fn many_questions(&mut self) -> MMsg {
        let mut m = self.message();
        let n = self.s.draw(700, |r| [300, 600, r.below(700)][r.below(3) as usize]) as usize;
        let base: Vec<MQ> = (0..3).map(|_| self.question()).collect();
        for i in 0..n {
            let mut q = base[i % 3].clone();
            // unlike names, so that compression cannot shrink them all
            q.name.insert(0, format!("q{i}").into_bytes());
            while name_len(&q.name) > 255 {
                q.name.remove(1);
            }
            m.q.push(q);
        }
        for _ in 0..2 {
            let q = self.question();
            m.q.push(q);
        }
        m
    }

    /// A message around or beyond 64 KB.
    pub fn huge_message(&mut self) -> MMsg {
        let mut m = self.message();
        let n = self.s.range(1, 3);
        for _ in 0..n {
            let section = self.s.below(3) as usize;
            let len = self.s.draw(65536, |r| [65535, 40000, 65000, 16384, 32768][r.below(5) as usize] - r.below(40)) as usize;
            let name = self.name();
            m.s[section].push(MRec {
                name,
                class: 1,
                flush: false,
                ttl: 1,
                rd: MR::Null(fill(len as u64, len)),
            });
            let r = self.record();
            m.s[section].push(r);
        }
        m
    }

    /// Many entries, to cross count boundaries.
    pub fn many_message(&mut self) -> MMsg {
        let mut m = MMsg {
            id: self.u16(),
            flags: self.flags(),
            ..Default::default()
        };
        self.types = Some(vec![1, 2]);
        let base: Vec<MRec> = (0..4).map(|_| self.record()).collect();
        let q = self.question();
        let which = self.s.below(4);
        let n = self.s.draw(1200, |r| [127, 128, 255, 256, 257, 300, 511, 512, 1023, 1024][r.below(10) as usize]) as usize;
        for i in 0..n {
            if which == 3 {
                m.q.push(q.clone());
            } else {
                let mut r = base[i % 4].clone();
                r.ttl = i as u32;
                m.s[which as usize].push(r);
            }
        }
        m
    }

    /// Mostly ordinary messages, sometimes special ones.
    pub fn any_message(&mut self) -> MMsg {
        match self.s.weighted(&[180, 12, 1, 2, 4, 12, 2]) {
            0 => self.message(),
            5 => self.padded_message(),
            6 => self.many_questions(),
            1 => self.limit_message(),
            2 => self.huge_message(),
            3 => self.many_message(),
            _ => {
                self.big = true;
                let m = self.message();
                self.big = false;
                trim(m)
            }
        }
    }
}

/// Drops records whose data would not fit into 65535 octets, and what makes a message enormous.
pub fn trim(mut m: MMsg) -> MMsg {
    let mut total = 0;
    for s in m.s.iter_mut() {
        s.retain(|r| {
            let n = rdata_plain(&r.rd, true).len();
            total += n;
            n <= 65535 && total < 400_000
        });
    }
    m
}

pub fn fill(seed: u64, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    let mut r = Rng::new(seed);
    match seed % 4 {
        0 => vec![seed as u8; n],
        1 => (0..n).map(|_| b'a' + r.below(26) as u8).collect(),
        _ => (0..n).map(|_| r.next() as u8).collect(),
    }
}

// ---------------------------------------------------------------------------------------------
// byte strings

/// Interesting positions of an encoded message.
#[derive(Default, Clone)]
pub struct Marks {
    pub names: Vec<usize>,
    /// 16-bit length and count fields
    pub words: Vec<usize>,
    pub starts: Vec<usize>,
}

pub fn marks(e: &Enc) -> Marks {
    let mut m = Marks {
        names: e.names.clone(),
        words: vec![4, 6, 8, 10],
        starts: e.q.iter().map(|q| q.0).collect(),
    };
    for r in &e.r {
        m.words.extend([r.fixed, r.fixed + 2, r.rdlen]);
        m.starts.push(r.start);
        m.starts.push(r.rdata);
    }
    m
}

/// Changes a byte string in a few places.
pub fn mutate(s: &mut Src, b: &mut Vec<u8>, m: &Marks) {
    let n = 1 + s.below(4);
    for _ in 0..n {
        let len = b.len() as u64;
        if len == 0 {
            b.push(s.below(256) as u8);
            continue;
        }
        match s.weighted(&[6, 6, 6, 4, 3, 3, 3, 3, 2, 2]) {
            0 => {
                let i = s.below(len) as usize;
                b[i] ^= 1 << s.below(8);
            }
            1 => {
                let i = s.below(len) as usize;
                b[i] = s.draw(256, |r| rand_int(r, 8)) as u8;
            }
            2 => {
                // length, count, type or class field
                let w = if m.words.is_empty() { s.below(len) as usize } else { *s.pick(&m.words) };
                if w + 1 < b.len() {
                    let old = u16::from_be_bytes([b[w], b[w + 1]]);
                    let v = match s.below(3) {
                        0 => old.wrapping_add(1 + s.below(4) as u16),
                        1 => old.wrapping_sub(1 + s.below(4) as u16),
                        _ => s.draw(65536, |r| rand_int(r, 16)) as u16,
                    };
                    b[w..w + 2].copy_from_slice(&v.to_be_bytes());
                }
            }
            3 => {
                // a pointer at the beginning of a name
                let p = if m.names.is_empty() { s.below(len) as usize } else { *s.pick(&m.names) };
                let t = s.draw(0x4000, |r| match r.below(4) {
                    0 => p as u64,
                    1 => r.below(len + 4),
                    2 => (p as u64).wrapping_add(r.below(5)).wrapping_sub(2),
                    _ => {
                        if m.names.is_empty() {
                            0
                        } else {
                            m.names[r.below(m.names.len() as u64) as usize] as u64
                        }
                    }
                }) as u16
                    | 0xC000;
                if p + 1 < b.len() {
                    b[p..p + 2].copy_from_slice(&t.to_be_bytes());
                }
            }
            4 => {
                let i = s.below(len) as usize;
                b.truncate(i);
            }
            5 => {
                let i = s.below(len + 1) as usize;
                let n = 1 + s.below(4) as usize;
                for k in 0..n {
                    let v = s.draw(256, |r| rand_int(r, 8)) as u8;
                    b.insert(i + k, v);
                }
            }
            6 => {
                let i = s.below(len) as usize;
                let n = (1 + s.below(6) as usize).min(b.len() - i);
                b.drain(i..i + n);
            }
            7 => {
                // copy a range over another one
                let i = s.below(len) as usize;
                let j = s.below(len) as usize;
                let n = (1 + s.below(16) as usize).min(b.len() - i).min(b.len() - j);
                let part = b[i..i + n].to_vec();
                b[j..j + n].copy_from_slice(&part);
            }
            8 => {
                let i = s.below(len) as usize;
                let n = (1 + s.below(8) as usize).min(b.len() - i);
                let v = [0u8, 0xff, 0xc0, 0x3f][s.below(4) as usize];
                for x in &mut b[i..i + n] {
                    *x = v;
                }
            }
            _ => {
                // two neighbouring octets as a big endian number
                if len > 1 {
                    let i = s.below(len - 1) as usize;
                    let v = s.draw(65536, |r| rand_int(r, 16)) as u16;
                    b[i..i + 2].copy_from_slice(&v.to_be_bytes());
                }
            }
        }
    }
}
