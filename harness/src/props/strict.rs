//! C23: a reference decoder for record data decides what has to be accepted, with which value,
//! and what has to be rejected.

use super::frame::frame;
use super::names::{decompress, Verdict};
use super::wire::*;
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::{hash_bytes, Src};
use maybe_dns::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "record data of every type (mutated, cut at every length, every octet changed, arbitrary, all strings of up to two octets, whole mutated messages) is decoded and compared with a reference decoder written from the RFCs, which accepts with a value, rejects, or leaves open; non-trivial: the reference rejects, or accepts mutated data; distinct by type and octets",
        phases: vec![
            phase("short", 256, 256, c23_short),
            phase("cut", 12000, 300000, c23_cut),
            phase("sweep", 6000, 150000, c23_sweep),
            phase("mutated", 150000, 3000000, c23_mutated),
            phase("resized", 90000, 1500000, c23_resized),
            phase("random", 120000, 2000000, c23_random),
            phase("message", 60000, 1500000, c23_message),
        ],
    }
}

pub enum V {
    /// Has to be accepted with this value
    Value(MR),
    /// May be rejected; if accepted, with this value
    May(MR, &'static str),
    Reject(&'static str),
    Open(&'static str),
}

enum Stop {
    Reject(&'static str),
    Open(&'static str),
}
use Stop::*;

struct R<'a> {
    b: &'a [u8],
    at: usize,
    may: Option<&'static str>,
}

impl R<'_> {
    fn left(&self) -> usize {
        self.b.len() - self.at
    }
    fn bytes(&mut self, n: usize) -> Result<Vec<u8>, Stop> {
        if n > self.left() {
            return Err(Reject("a field extends beyond the data"));
        }
        self.at += n;
        Ok(self.b[self.at - n..self.at].to_vec())
    }
    fn rest(&mut self) -> Vec<u8> {
        let v = self.b[self.at..].to_vec();
        self.at = self.b.len();
        v
    }
    fn u8(&mut self) -> Result<u8, Stop> {
        Ok(self.bytes(1)?[0])
    }
    fn u16(&mut self) -> Result<u16, Stop> {
        let b = self.bytes(2)?;
        Ok((b[0] as u16) << 8 | b[1] as u16)
    }
    fn u32(&mut self) -> Result<u32, Stop> {
        Ok((self.u16()? as u32) << 16 | self.u16()? as u32)
    }
    fn arr<const N: usize>(&mut self) -> Result<[u8; N], Stop> {
        Ok(self.bytes(N)?.try_into().unwrap())
    }
    fn string(&mut self) -> Result<Vec<u8>, Stop> {
        let n = self.u8()? as usize;
        self.bytes(n)
    }
    fn text(&mut self) -> Result<String, Stop> {
        String::from_utf8(self.string()?).map_err(|_| Open("text that is not UTF-8"))
    }
    fn name(&mut self) -> Result<Name, Stop> {
        match decompress(self.b, self.at) {
            Verdict::Name(n, after, _) => {
                self.at = after;
                Ok(n)
            }
            Verdict::Reject(_) => Err(Reject("a name that is not well-formed")),
            Verdict::Grey => Err(Open("reserved label type")),
        }
    }
    fn one_of(&self, v: u16, ok: bool) -> Result<u16, Stop> {
        if ok {
            Ok(v)
        } else {
            Err(Reject("an enumerated field has a number that is not assigned"))
        }
    }
    fn code8(&mut self, ok: fn(u8) -> bool) -> Result<u8, Stop> {
        let v = self.u8()?;
        self.one_of(v as u16, ok(v)).map(|v| v as u8)
    }
    fn code16(&mut self, ok: fn(u16) -> bool) -> Result<u16, Stop> {
        let v = self.u16()?;
        self.one_of(v, ok(v))
    }
    fn types(&mut self) -> Result<BTreeSet<u16>, Stop> {
        let mut set = BTreeSet::new();
        let mut last = -1;
        let mut open = None;
        while self.left() > 0 {
            let w = self.u8()?;
            let n = self.u8()? as usize;
            if n > 32 {
                return Err(Reject("a bitmap window of more than 32 octets"));
            }
            let bits = self.bytes(n)?;
            if n == 0 || (w as i32) <= last {
                open = Some("empty or unordered windows");
            }
            last = w as i32;
            if bits.last() == Some(&0) {
                self.may = Some("trailing zero octets in a bitmap");
            }
            for (i, o) in bits.iter().enumerate() {
                for k in 0..8 {
                    if o & (0x80 >> k) != 0 {
                        let t = (w as u16) << 8 | (i as u16) << 3 | k;
                        if known_type(t) {
                            set.insert(t);
                        } else {
                            open = Some("unknown type in a bitmap");
                        }
                    }
                }
            }
        }
        match open {
            Some(w) => Err(Open(w)),
            None => Ok(set),
        }
    }
}

fn known_type(v: u16) -> bool {
    BASE_TYPES.contains(&v) || (HAS_DNSSEC && DNSSEC_TYPES.contains(&v))
}
fn svcb_key(k: u16) -> bool {
    k <= 6 || k >= 65280
}

/// Reads `b[start..]` as the data of a record; names may point to what is in front of it.
pub fn reference(b: &[u8], start: usize, code: u16) -> V {
    let mut r = R { b, at: start, may: None };
    match value(&mut r, code) {
        Err(Reject(w)) => V::Reject(w),
        Err(Open(w)) => V::Open(w),
        Ok(v) => {
            if r.left() > 0 {
                V::May(v, "octets after the last field")
            } else if let Some(w) = r.may {
                V::May(v, w)
            } else {
                V::Value(v)
            }
        }
    }
}

fn value(r: &mut R, code: u16) -> Result<MR, Stop> {
    Ok(match code {
        1 => MR::A(r.arr()?),
        2 => MR::Ns(r.name()?),
        5 => MR::Cname(r.name()?),
        6 => MR::Soa {
            mname: r.name()?,
            rname: r.name()?,
            nums: [r.u32()?, r.u32()?, r.u32()?, r.u32()?, r.u32()?],
        },
        10 => MR::Null(r.rest()),
        11 => MR::Wks {
            addr: r.arr()?,
            proto: r.u8()?,
            bitmap: r.rest(),
        },
        12 => MR::Ptr(r.name()?),
        13 => MR::Hinfo(r.string()?, r.string()?),
        14 => MR::Minfo(r.name()?, r.name()?),
        15 => MR::Mx(r.u16()?, r.name()?),
        16 => {
            let mut v = vec![];
            let mut open = false;
            while r.left() > 0 {
                match String::from_utf8(r.string()?) {
                    Ok(t) => v.push(t),
                    Err(_) => open = true,
                }
            }
            if open {
                return Err(Open("text that is not UTF-8"));
            }
            if v.is_empty() {
                r.may = Some("no string");
            }
            MR::Txt(v)
        }
        28 => MR::Aaaa(r.arr()?),
        29 => MR::Loc {
            b: r.arr()?,
            n: [r.u32()?, r.u32()?, r.u32()?],
        },
        33 => MR::Srv(r.u16()?, r.u16()?, r.u16()?, r.name()?),
        35 => {
            let (order, pref) = (r.u16()?, r.u16()?);
            let flags = r.string()?.iter().map(|c| c.to_ascii_uppercase()).filter(|c| b"SAUP".contains(c)).collect();
            let service = r.string()?;
            let regexp = String::from_utf8(r.string()?);
            let repl = r.name()?;
            MR::Naptr {
                order,
                pref,
                flags,
                service,
                regexp: regexp.map_err(|_| Open("text that is not UTF-8"))?,
                repl,
            }
        }
        41 => {
            let mut m = BTreeMap::new();
            let mut open = false;
            while r.left() > 0 {
                let k = r.u16()?;
                let n = r.u16()? as usize;
                open |= m.insert(k, r.bytes(n)?).is_some();
            }
            if open {
                return Err(Open("repeated option"));
            }
            MR::Opt(m)
        }
        42 => {
            let family = r.code16(|f| f == 1 || f == 2)?;
            let prefix = r.u8()?;
            let n = r.u8()?;
            let a = r.bytes((n & 0x7f) as usize)?;
            if a.len() > if family == 1 { 4 } else { 16 } {
                return Err(Open("address longer than the family allows"));
            }
            if a.last() == Some(&0) || prefix > if family == 1 { 32 } else { 128 } {
                r.may = Some("trailing zero octets or prefix beyond the address");
            }
            let mut addr = [0; 16];
            addr[..a.len()].copy_from_slice(&a);
            MR::Apl {
                prefix,
                neg: n & 0x80 != 0,
                v6: family == 2,
                addr,
            }
        }
        44 => MR::Sshfp(r.code8(|v| v <= 5)?, r.code8(|v| v <= 1)?, r.rest()),
        45 => {
            let prec = r.u8()?;
            let kind = r.code8(|v| v <= 3)?;
            let alg = r.code8(|v| v <= 5)?;
            let gw = match kind {
                0 => return Err(Open("no gateway")),
                1 => Gw::V4(r.arr()?),
                2 => Gw::V6(r.arr()?),
                _ => Gw::Name(r.name()?),
            };
            MR::IpSecKey {
                prec,
                alg,
                gw,
                key: r.rest(),
            }
        }
        49 => {
            let id = r.code16(|v| v <= 2)?;
            r.code8(|v| v == 1)?;
            MR::Dhcid(id, r.rest())
        }
        52 => MR::Tlsa(r.code8(|v| v <= 3)?, r.code8(|v| v <= 1)?, r.code8(|v| v <= 2)?, r.rest()),
        55 => {
            let h = r.u8()? as usize;
            let alg = r.code8(|v| v <= 5)?;
            let k = r.u16()? as usize;
            let hit = r.bytes(h)?;
            let key = r.bytes(k)?;
            let mut rvs = vec![];
            while r.left() > 0 {
                rvs.push(r.name()?);
            }
            MR::Hip { alg, hit, key, rvs }
        }
        61 => MR::OpenPgp(r.rest()),
        62 => {
            let serial = r.u32()?;
            let flags = r.u16()?;
            let types = r.types()?;
            if flags > 3 {
                return Err(Open("unknown flags"));
            }
            MR::Csync { serial, flags, types }
        }
        64 => svcb(r)?,
        108 => MR::Eui48(r.arr()?),
        109 => MR::Eui64(r.arr()?),
        249 => {
            let alg = r.name()?;
            let (inception, expiration) = (r.u32()?, r.u32()?);
            let mode = r.code16(|v| v >= 1 && v != 65535)?;
            let error = r.code16(|v| v <= 21)?;
            let n = r.u16()? as usize;
            let key = r.bytes(n)?;
            let n = r.u16()? as usize;
            let other = r.bytes(n)?;
            MR::Tkey {
                alg,
                inception,
                expiration,
                mode,
                error,
                key,
                other,
            }
        }
        250 => {
            let alg = r.name()?;
            let time = (r.u16()? as u64) << 32 | r.u32()? as u64;
            let fudge = r.u16()?;
            let n = r.u16()? as usize;
            let mac = r.bytes(n)?;
            let id = r.u16()?;
            let error = r.code16(|v| TSIG_ERRORS.contains(&v))?;
            let n = r.u16()? as usize;
            let other = r.bytes(n)?;
            MR::Tsig {
                alg,
                time,
                fudge,
                mac,
                id,
                error,
                other,
            }
        }
        256 => MR::Uri(r.u16()?, r.u16()?, r.rest()),
        257 => {
            let flags = r.u8()?;
            let n = r.u8()? as usize;
            if n == 0 {
                return Err(Reject("an empty CAA tag"));
            }
            let tag = r.bytes(n)?;
            let value = r.rest();
            MR::Caa {
                critical: flags & 0x80 != 0,
                tag: String::from_utf8(tag).map_err(|_| Open("text that is not UTF-8"))?,
                value,
            }
        }
        43 | 59 => MR::Ds {
            child: code == 59,
            tag: r.u16()?,
            alg: r.code8(|v| DNSSEC_ALGS.contains(&v))?,
            digest_type: r.code8(|v| DIGEST_TYPES.contains(&v))?,
            digest: r.rest(),
        },
        48 | 60 => {
            let flags = r.u16()?;
            let proto = r.u8()?;
            let alg = r.code8(|v| DNSSEC_ALGS.contains(&v))?;
            if proto != 3 {
                return Err(Open("another key protocol"));
            }
            if flags & !0x101 != 0 {
                r.may = Some("reserved key flags");
            }
            MR::DnsKey {
                child: code == 60,
                zone: flags & 0x100 != 0,
                sep: flags & 1 != 0,
                alg,
                key: r.rest(),
            }
        }
        46 => MR::Rrsig {
            covered: r.code16(known_type)?,
            alg: r.code8(|v| DNSSEC_ALGS.contains(&v))?,
            labels: r.u8()?,
            ttl: r.u32()?,
            exp: r.u32()?,
            inc: r.u32()?,
            tag: r.u16()?,
            signer: r.name()?,
            sig: r.rest(),
        },
        47 => MR::Nsec {
            next: r.name()?,
            types: r.types()?,
        },
        _ => return Err(Open("type without a reference")),
    })
}

fn svcb(r: &mut R) -> Result<MR, Stop> {
    let prio = r.u16()?;
    let target = r.name()?;
    let mut params: BTreeMap<u16, P> = BTreeMap::new();
    let mut open = None;
    let mut last = -1;
    while r.left() > 0 {
        let key = r.code16(svcb_key)?;
        let n = r.u16()? as usize;
        let v = r.bytes(n)?;
        let mut x = R { b: &v, at: 0, may: None };
        let p = match key {
            0 => {
                let mut keys = BTreeSet::new();
                let mut before = -1;
                while x.left() > 0 {
                    let k = x.code16(svcb_key)?;
                    if k as i32 <= before {
                        r.may = Some("unordered mandatory keys");
                    }
                    before = k as i32;
                    keys.insert(k);
                }
                if keys.is_empty() || keys.contains(&0) {
                    r.may = Some("mandatory keys that are empty or contain themselves");
                }
                P::Mandatory(keys)
            }
            1 => {
                let mut ids = vec![];
                while x.left() > 0 {
                    let id = x.string()?;
                    if id.is_empty() {
                        r.may = Some("empty protocol identifier");
                    }
                    ids.push(id);
                }
                if ids.is_empty() {
                    r.may = Some("no protocol identifier");
                }
                P::Alpn(ids)
            }
            2 => P::NoDefaultAlpn,
            3 => P::Port(x.u16()?),
            4 | 6 => {
                let one = if key == 4 { 4 } else { 16 };
                if v.len() > one && v.len() % one == 0 {
                    open = Some("several addresses in a hint");
                    x.at = v.len();
                    P::Invalid
                } else if key == 4 {
                    P::V4(x.arr()?)
                } else {
                    P::V6(x.arr()?)
                }
            }
            5 => P::Ech(x.rest()),
            65535 => P::Invalid,
            k => P::Private(k, x.rest()),
        };
        if x.left() > 0 {
            return Err(Reject("a parameter value that is longer than its content"));
        }
        if params.contains_key(&key) {
            open = Some("repeated parameter");
        }
        if (key as i32) < last {
            r.may = Some("unordered parameters");
        }
        last = key as i32;
        if key == 65535 {
            r.may = Some("the reserved parameter key");
        }
        params.insert(key, p);
    }
    if prio == 0 && !params.is_empty() {
        r.may = Some("parameters in alias mode");
    }
    match open {
        Some(w) => Err(Open(w)),
        None => Ok(MR::Svcb {
            prio,
            target,
            params: params.into_values().collect(),
        }),
    }
}

/// Compares what the library makes of the data with the reference.
fn judge(v: &V, got: &Result<RecordData, DnsError>, what: &dyn Fn() -> String) -> Res {
    match (v, got) {
        (V::Value(m), Ok(d)) | (V::May(m, _), Ok(d)) => {
            check_rd("decoded", d, m).map_err(|e| format!("{}: {e}", what()))?;
            if matches!(m, MR::Rrsig { .. } | MR::Naptr { .. }) {
                ensure!(d.to_bytes() == rdata_plain(m, true), "{}: read as {}", what(), hex(&d.to_bytes()));
            }
        }
        (V::Value(_), Err(e)) => return Err(format!("{}: well-formed data is rejected: {e:?}", what())),
        (V::Reject(w), Ok(_)) => return Err(format!("{}: accepted, although there is {w}", what())),
        _ => {}
    }
    Ok(())
}

/// Decodes `b[start..end]` as data of a record, on its own and inside a record.
fn c23_check(b: &[u8], start: usize, end: usize, code: u16, ctx: &mut Ctx) -> Result<V, String> {
    ctx.eval();
    let v = reference(&b[..end], start, code);
    let shown = &b[start..end.min(start + 200)];
    let what = || format!("{} record data {} ({} octets)", type_name(code), hex(shown), end - start);
    let alone = {
        let mut buf = DnsBuffer::from(&b[..end]);
        buf.set_position(start).map_err(|_| "position")?;
        RecordData::from(rtype(code), &mut buf)
    };
    judge(&v, &alone, &what)?;
    // the same data limited by a sub-buffer, with octets behind it
    let sub = {
        let mut longer = b[..end].to_vec();
        longer.extend([3, b'x', b'y', b'z', 0, 0xff, 0xff]);
        let mut buf = DnsBuffer::from(&longer[..]);
        buf.set_position(start).map_err(|_| "position")?;
        let mut x = buf.sub_buffer(end - start).map_err(|e| format!("sub-buffer: {e:?}"))?;
        RecordData::from(rtype(code), &mut x)
    };
    judge(&v, &sub, &|| format!("{} followed by other octets", what()))?;
    ctx.class(match &v {
        V::Value(_) => "to be accepted",
        V::May(..) => "may be accepted",
        V::Reject(w) => w,
        V::Open(_) => "left open",
    });
    Ok(v)
}

fn note(v: &V, b: &[u8], code: u16, ctx: &mut Ctx) {
    if !matches!(v, V::Open(_)) {
        ctx.nontrivial(hash_bytes(b) ^ (code as u64) << 40);
    }
}

/// All data of up to two octets.
fn c23_short(_s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut all = BASE_TYPES.to_vec();
    if HAS_DNSSEC {
        all.extend(DNSSEC_TYPES);
    }
    for code in all {
        if idx == 0 {
            let v = c23_check(&[], 0, 0, code, ctx)?;
            note(&v, &[], code, ctx);
        }
        let one = [idx as u8];
        let v = c23_check(&one, 0, 1, code, ctx)?;
        note(&v, &one, code, ctx);
        for x in 0..=255u8 {
            let two = [idx as u8, x];
            let v = c23_check(&two, 0, 2, code, ctx)?;
            note(&v, &two, code, ctx);
        }
    }
    Ok(())
}

/// A small record of one type, with something in front that names can point to.
fn one(s: &mut Src, code: u16) -> (MR, Vec<u8>, usize) {
    let mut m = MMsg {
        flags: 0x8000,
        ..Default::default()
    };
    {
        let mut g = G::new(s);
        let name = g.name();
        m.q.push(MQ {
            name,
            qtype: 1,
            qclass: 1,
            unicast: false,
        });
        m.s[0].push(g.record_of(code));
    }
    let e = encode(&m, &mut Policy::Random(s), true);
    let pos = &e.r[0];
    (m.s[0][0].rd.clone(), e.bytes[..pos.end].to_vec(), pos.rdata)
}

fn c23_cut(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let (m, b, start) = one(s, code);
    let len = b.len() - start;
    ctx.sample(|| format!("{} of {len} octets cut at every length", type_name(code)));
    match c23_check(&b, start, b.len(), code, ctx)? {
        V::Value(v) | V::May(v, _) => ensure!(v == m || code == 64 || code == 35, "the reference reads {} as {v:?}, expected {m:?}", hex(&b[start..])),
        V::Reject(w) => return Err(format!("the reference rejects {} record data {}: {w}", type_name(code), hex(&b[start..]))),
        V::Open(_) => {}
    }
    let step = if len < 400 { 1 } else { 1 + len / 200 };
    for n in (0..len).step_by(step).chain(len.saturating_sub(40)..len) {
        let v = c23_check(&b, start, start + n, code, ctx)?;
        note(&v, &b[start..start + n], code, ctx);
    }
    // and with octets added
    let mut long = b.clone();
    for _ in 0..1 + s.below(6) {
        long.push(s.below(256) as u8);
        let v = c23_check(&long, start, long.len(), code, ctx)?;
        note(&v, &long[start..], code, ctx);
    }
    Ok(())
}

/// Every octet changed to its neighbours and to the extremes.
fn c23_sweep(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let (_, mut b, start) = one(s, code);
    let len = b.len() - start;
    ctx.sample(|| format!("{} of {len} octets, each octet changed", type_name(code)));
    let some = (start..b.len()).take(200).chain((start + 200.min(len)..b.len()).rev().take(20)).collect::<Vec<_>>();
    for i in some {
        let old = b[i];
        for new in [old.wrapping_add(1), old.wrapping_sub(1), 0, 255, 0x80 ^ old, (len.min(255)) as u8, (b.len() - i - 1).min(255) as u8, (b.len() - i).min(255) as u8] {
            if new == old {
                continue;
            }
            b[i] = new;
            let v = c23_check(&b, start, b.len(), code, ctx)?;
            note(&v, &b[start..], code, ctx);
        }
        b[i] = old;
    }
    Ok(())
}

fn c23_mutated(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let (_, b, start) = one(s, code);
    let mut data = b[start..].to_vec();
    let mk = Marks::default();
    mutate(s, &mut data, &mk);
    data.truncate(65535);
    let mut b = b;
    b.truncate(start);
    b.extend(&data);
    ctx.sample(|| format!("{} {}", type_name(code), hex(&data[..data.len().min(60)])));
    let v = c23_check(&b, start, b.len(), code, ctx)?;
    note(&v, &data, code, ctx);
    Ok(())
}

/// Octets inserted or removed inside a part of the data, with the lengths around them adjusted, so that
/// the parts still add up.
fn c23_resized(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let (_, b, start) = one(s, code);
    let mut data = b[start..].to_vec();
    let times = 1 + s.below(2);
    for _ in 0..times {
        let len = data.len();
        if len == 0 {
            break;
        }
        // octets that may be the length of what follows them
        let mut lens = vec![];
        for p in 0..len.min(600) {
            let l = data[p] as usize;
            if p + 1 + l <= len {
                lens.push((p, 1, l));
            }
            if p + 1 < len {
                let l = (data[p] as usize) << 8 | data[p + 1] as usize;
                if p + 2 + l <= len {
                    lens.push((p, 2, l));
                }
            }
        }
        if lens.is_empty() {
            break;
        }
        let (p, w, l) = *s.pick(&lens);
        let from = p + w;
        let k = 1 + s.below(3) as usize;
        let grow = l < k || s.below(3) != 0;
        let at = match s.below(3) {
            0 => from + l,
            1 => from,
            _ => from + s.below(l as u64 + 1) as usize,
        };
        let new = if grow {
            for i in 0..k {
                let v = s.draw(256, |r| rand_int(r, 8)) as u8;
                data.insert(at + i, v);
            }
            l + k
        } else {
            let at = at.min(from + l - k);
            data.drain(at..at + k);
            l - k
        };
        if w == 1 {
            data[p] = new as u8;
        } else {
            data[p..p + 2].copy_from_slice(&(new as u16).to_be_bytes());
        }
    }
    data.truncate(65535);
    let mut b = b;
    b.truncate(start);
    b.extend(&data);
    ctx.sample(|| format!("{} {}", type_name(code), hex(&data[..data.len().min(60)])));
    let v = c23_check(&b, start, b.len(), code, ctx)?;
    note(&v, &data, code, ctx);
    Ok(())
}

fn c23_random(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let mut g = G::new(s);
    let front = encode_name(&g.name());
    let mut b = front.clone();
    match g.s.below(3) {
        0 => b.extend(g.blob(60)),
        1 => {
            // small numbers: lengths that may or may not fit
            let n = g.s.below(40);
            for _ in 0..n {
                b.push(g.s.below(12) as u8);
            }
        }
        _ => {
            // pieces of what record data consists of
            let n = g.s.below(8);
            for _ in 0..n {
                match g.s.below(6) {
                    0 => b.push(g.u8()),
                    1 => b.extend(g.u16().to_be_bytes()),
                    2 => b.extend(encode_name(&g.name())),
                    3 => b.extend([0xc0, g.s.below(front.len() as u64) as u8]),
                    4 => {
                        let t = g.text(12);
                        b.push(t.len().min(255) as u8);
                        b.extend(t.bytes());
                    }
                    _ => {
                        let t = g.blob(12);
                        b.extend((t.len() as u16).to_be_bytes());
                        b.extend(t);
                    }
                }
            }
        }
    }
    let end = b.len();
    let v = c23_check(&b, front.len(), end, code, ctx)?;
    note(&v, &b, code, ctx);
    Ok(())
}

/// Whole messages: accepted exactly if every part is, with the values of the reference.
fn c23_message(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = any_bytes(s, idx);
    ctx.eval();
    let got = decode(&b);
    let f = match frame(&b) {
        Ok(f) => f,
        Err(true) => {
            ensure!(got.is_err(), "a message whose entries do not fit is accepted ({})", hex(&b[..b.len().min(200)]));
            ctx.class("does not fit");
            return Ok(());
        }
        Err(false) => return Ok(()),
    };
    let word = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
    let mut reject: Option<String> = None;
    let mut open = false;
    if b[3] & 15 > 10 {
        reject = Some(format!("response code {}", b[3] & 15));
    }
    let mut values = vec![];
    for (i, (start, end)) in f.parts.iter().enumerate() {
        let at = match decompress(&b, *start) {
            Verdict::Name(_, at, _) => at,
            Verdict::Reject(w) => {
                reject = Some(format!("name of entry {i}: {w}"));
                break;
            }
            Verdict::Grey => {
                open = true;
                break;
            }
        };
        if i < f.counts[0] {
            let t = word(at);
            let c = word(at + 2) & 0x7fff;
            if !(known_type(t) || QUERY_TYPES.contains(&t)) || ![1, 2, 3, 4, 254, 255].contains(&c) {
                reject = Some(format!("type {t} or class {c} of question {i}"));
                break;
            }
            continue;
        }
        let t = word(at);
        if !known_type(t) {
            reject = Some(format!("type {t} of record {i}"));
            break;
        }
        match reference(&b[..*end], at + 10, t) {
            V::Reject(w) => {
                reject = Some(format!("{} record {i}: {w}", type_name(t)));
                break;
            }
            V::Open(_) => {
                open = true;
                values.push(None);
            }
            V::May(v, _) => {
                open = true;
                values.push(Some(v));
            }
            V::Value(v) => values.push(Some(v)),
        }
    }
    match (&got, &reject) {
        (Ok(_), Some(w)) => return Err(format!("a message is accepted, although it has to be rejected ({w}): {}", hex(&b[..b.len().min(400)]))),
        (Err(e), None) if !open => return Err(format!("a well-formed message is rejected ({e:?}): {}", hex(&b[..b.len().min(400)]))),
        _ => {}
    }
    ctx.class(if reject.is_some() {
        "message to be rejected"
    } else if open {
        "message partly left open"
    } else {
        "message to be accepted"
    });
    if !b.is_empty() && (!open || reject.is_some()) {
        ctx.nontrivial_bytes(&b);
    }
    if let Ok(p) = got {
        for (i, (r, v)) in p.answers().iter().chain(p.authorities()).chain(p.additionals()).zip(&values).enumerate() {
            if let Some(v) = v {
                check_rd("record", r.data(), v).map_err(|e| format!("{e} (record {i} of {})", hex(&b[..b.len().min(400)])))?;
            }
        }
    }
    Ok(())
}

/// What an independent reader finds in a message: flags, sections, and per entry owner, type,
/// class, time to live and data (`None` where the reference leaves the data open).
#[derive(PartialEq, Debug)]
pub struct Entry {
    pub name: Name,
    pub code: u16,
    pub class: u16,
    pub ttl: u32,
    pub data: Option<MR>,
}

pub struct Meaning {
    pub head: [u8; 4],
    pub counts: [usize; 4],
    pub entries: Vec<Entry>,
}

pub fn meaning(b: &[u8]) -> Option<Meaning> {
    let f = frame(b).ok()?;
    let word = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]);
    let mut entries = vec![];
    for (i, (start, end)) in f.parts.iter().enumerate() {
        let (name, at) = match decompress(b, *start) {
            Verdict::Name(n, at, _) => (n, at),
            _ => return None,
        };
        let code = word(at);
        // the top bit means something else and is kept by one of the features only
        let top = if HAS_MDNS || code == 41 { 0xffff } else { 0x7fff };
        let mut e = Entry {
            name,
            code,
            class: word(at + 2) & top,
            ttl: 0,
            data: None,
        };
        if i >= f.counts[0] {
            e.ttl = (word(at + 4) as u32) << 16 | word(at + 6) as u32;
            e.data = match reference(&b[..*end], at + 10, code) {
                V::Value(v) | V::May(v, _) => Some(v),
                _ => None,
            };
        } else if !HAS_MDNS {
            e.class &= 0x7fff;
        }
        entries.push(e);
    }
    Some(Meaning {
        head: b[..4].try_into().unwrap(),
        counts: f.counts,
        entries,
    })
}

/// Whether `after` says what `before` said, as far as the reference can tell.
pub fn same_meaning(before: &Meaning, after: &[u8]) -> Res {
    let m = meaning(after).ok_or("an independent reader can not read the re-serialised message")?;
    ensure!(m.head == before.head, "id and flags were {}, are {}", hex(&before.head), hex(&m.head));
    ensure!(m.counts == before.counts, "section counts were {:?}, are {:?}", before.counts, m.counts);
    for (i, (a, b)) in before.entries.iter().zip(&m.entries).enumerate() {
        ensure!(
            a.name == b.name && a.code == b.code && a.class == b.class && a.ttl == b.ttl,
            "entry {i} was {:?} {} {} {}, is {:?} {} {} {}",
            a.name,
            a.code,
            a.class,
            a.ttl,
            b.name,
            b.code,
            b.class,
            b.ttl
        );
        if a.data.is_some() {
            ensure!(a.data == b.data, "data of entry {i} were {:?}, are {:?}", a.data, b.data);
        }
    }
    Ok(())
}
