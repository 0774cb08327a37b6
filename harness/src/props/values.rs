//! C22: values hold exactly what they were given.

use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::wire::type_of;
use crate::src::Src;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::convert::TryFrom;
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "values are built from generated parts, changed by sequences of setters and converted, and compared with a model of their parts; a case is non-trivial if at least one part differs from its default; distinct by the parts",
        phases: vec![
            phase("addresses", 120000, 2000000, c22_addresses),
            phase("address-text", 200000, 3000000, c22_text),
            phase("entries", 60000, 1000000, c22_entries),
            phase("data", 150000, 2000000, c22_data),
            phase("views", 20000, 400000, c22_views),
        ],
    }
}

fn c22_addresses(s: &mut Src, ctx: &mut Ctx, _i: u64) -> Res {
    let mut g = G::new(s);
    let (a, b, c, d) = (g.v4(), g.v4(), g.v6(), g.v6());
    ctx.evals(2);
    ctx.nontrivial_bytes(format!("{:?}", (a, b, c, d)).as_bytes());
    let v4 = Ipv4Addr::new(a[0], a[1], a[2], a[3]);
    let num = u32::from_be_bytes(a);
    ctx.class(if v4.is_private() || v4.is_loopback() || v4.is_link_local() { "special IPv4" } else { "IPv4" });
    let made = [
        ("new", A::new(v4)),
        ("from address", A::from(v4)),
        ("from number", A::from(num)),
        ("from text", A::try_from(v4.to_string().as_str()).map_err(|e| format!("A from {v4}: {e}"))?),
    ];
    for (how, x) in made {
        ensure!(*x.inner() == v4, "A {how} of {v4} holds {}", x.inner());
        ensure!(x.to_bytes() == a, "A {how} of {v4} is encoded as {:?}", x.to_bytes());
        ensure!(u32::from(x.clone()) == num, "A {how} of {v4} as a number is {}", u32::from(x.clone()));
        let mut y = x.clone();
        *y.inner_mut() = Ipv4Addr::from(b);
        ensure!(y.inner().octets() == b, "A changed to {b:?} holds {}", y.inner());
        ensure!(y.into_inner().octets() == b, "A changed to {b:?} yields another address");
        ensure!(x.into_inner() == v4, "A {how} of {v4} changed through its copy");
    }
    let v6 = Ipv6Addr::from(c);
    let num = u128::from_be_bytes(c);
    ctx.class(if v6.to_ipv4().is_some() { "IPv6 with embedded IPv4" } else { "IPv6" });
    let made = [
        ("new", Aaaa::new(v6)),
        ("from address", Aaaa::from(v6)),
        ("from number", Aaaa::from(num)),
        ("from text", Aaaa::try_from(v6.to_string().as_str()).map_err(|e| format!("AAAA from {v6}: {e}"))?),
    ];
    for (how, x) in made {
        ensure!(*x.inner() == v6, "AAAA {how} of {v6} holds {}", x.inner());
        ensure!(x.to_bytes() == c, "AAAA {how} of {v6} is encoded as {:?}", x.to_bytes());
        ensure!(u128::from(&x) == num, "AAAA {how} of {v6} as a number is {}", u128::from(&x));
        let mut y = x.clone();
        *y.inner_mut() = Ipv6Addr::from(d);
        ensure!(y.inner().octets() == d, "AAAA changed to {d:?} holds {}", y.inner());
        ensure!(y.into_inner().octets() == d, "AAAA changed to {d:?} yields another address");
        ensure!(x.into_inner() == v6, "AAAA {how} of {v6} changed through its copy");
    }
    Ok(())
}

/// Dotted decimal: four numbers without leading zeros.
fn parse4(t: &str) -> Option<[u8; 4]> {
    let parts: Vec<&str> = t.split('.').collect();
    let mut a = [0; 4];
    if parts.len() != 4 {
        return None;
    }
    for (i, p) in parts.iter().enumerate() {
        if p.is_empty() || p.len() > 3 || !p.bytes().all(|c| c.is_ascii_digit()) || (p.len() > 1 && p.starts_with('0')) {
            return None;
        }
        a[i] = u8::try_from(p.parse::<u16>().unwrap()).ok()?;
    }
    Some(a)
}

/// RFC 4291 2.2
fn parse6(t: &str) -> Option<[u8; 16]> {
    fn groups(t: &str, last: bool) -> Option<Vec<u16>> {
        let mut v = Vec::new();
        if t.is_empty() {
            return Some(v);
        }
        let parts: Vec<&str> = t.split(':').collect();
        for (i, p) in parts.iter().enumerate() {
            if p.contains('.') {
                if !last || i + 1 != parts.len() {
                    return None;
                }
                let a = parse4(p)?;
                v.push(u16::from_be_bytes([a[0], a[1]]));
                v.push(u16::from_be_bytes([a[2], a[3]]));
            } else {
                if p.is_empty() || p.len() > 4 || !p.bytes().all(|c| c.is_ascii_hexdigit()) {
                    return None;
                }
                v.push(u16::from_str_radix(p, 16).ok()?);
            }
        }
        Some(v)
    }
    let all = match t.find("::") {
        Some(i) => {
            let mut head = groups(&t[..i], false)?;
            let tail = groups(&t[i + 2..], true)?;
            if head.len() + tail.len() > 7 {
                return None;
            }
            head.resize(8 - tail.len(), 0);
            head.extend(tail);
            head
        }
        None => groups(t, true)?,
    };
    if all.len() != 8 {
        return None;
    }
    let mut a = [0; 16];
    for (i, g) in all.iter().enumerate() {
        a[2 * i..2 * i + 2].copy_from_slice(&g.to_be_bytes());
    }
    Some(a)
}

fn c22_text(s: &mut Src, ctx: &mut Ctx, _i: u64) -> Res {
    let mut g = G::new(s);
    let mut t: Vec<char> = match g.s.below(4) {
        0 => Ipv4Addr::from(g.v4()).to_string(),
        1 => Ipv6Addr::from(g.v6()).to_string(),
        2 => {
            let a = g.v6();
            let v: Vec<String> = a.chunks(2).map(|c| format!("{:x}", u16::from_be_bytes([c[0], c[1]]))).collect();
            v.join(":")
        }
        _ => {
            let n = g.s.range(0, 12);
            (0..n).map(|_| *g.s.pick(&['0', '1', '9', '.', ':', 'f', 'F', '2', '5', '.', ':', ' '])).collect()
        }
    }
    .chars()
    .collect();
    for _ in 0..g.s.weighted(&[4, 6, 3, 1]) {
        let i = g.s.below(t.len() as u64 + 1) as usize;
        match g.s.below(4) {
            0 => t.insert(i, *g.s.pick(&['0', '1', '9', '.', ':', 'f', 'G', ' ', '-', '+', '%', '/', 'x', '\n', 'ä', '[', ']'])),
            1 if i < t.len() => {
                t.remove(i);
            }
            2 if i < t.len() => t[i] = *g.s.pick(&['0', '5', '9', '.', ':', 'A', 'g', ' ', '٣']),
            _ => {
                let j = g.s.below(t.len() as u64 + 1) as usize;
                let part: Vec<char> = t[i.min(j)..i.max(j)].to_vec();
                for (k, c) in part.into_iter().enumerate() {
                    t.insert(i + k, c);
                }
            }
        }
    }
    let t: String = t.into_iter().collect();
    ctx.evals(2);
    ctx.nontrivial_bytes(format!("{:?}", t).as_bytes());
    let (w4, w6) = (parse4(&t), parse6(&t));
    ctx.class(match (w4, w6) {
        (Some(_), _) => "IPv4 text",
        (_, Some(_)) => "IPv6 text",
        _ => "no address",
    });
    let g4 = A::try_from(t.as_str()).ok().map(|a| a.inner().octets());
    let g6 = Aaaa::try_from(t.as_str()).ok().map(|a| a.inner().octets());
    ensure!(g4 == w4, "A from {t:?} is {g4:?}, expected {w4:?}");
    ensure!(g6 == w6, "AAAA from {t:?} is {g6:?}, expected {w6:?}");
    Ok(())
}

fn check_entry(what: &str, r: &ResourceRecord, m: &MRec, code: u16) -> Res {
    ensure!(unfq(r.name()) == m.name, "{what}: name is {}, expected {}", r.name(), show_name(&m.name));
    ensure!(rtype_code(r.record_type()) == code, "{what}: type is {:?}, expected {code}", r.record_type());
    ensure!(rclass_code(r.class()) == m.class, "{what}: class is {:?}, expected {}", r.class(), m.class);
    ensure!(r.time_to_live() == m.ttl, "{what}: time to live is {}, expected {}", r.time_to_live(), m.ttl);
    #[cfg(feature = "mdns")]
    ensure!(r.cache_flush() == m.flush, "{what}: cache flush is {}", r.cache_flush());
    check_rd(what, r.data(), &m.rd)
}

fn c22_entries(s: &mut Src, ctx: &mut Ctx, _i: u64) -> Res {
    let mut g = G::new(s);
    // a record
    let mut m = g.record();
    #[cfg(not(feature = "mdns"))]
    {
        m.flush = false;
    }
    let mut r = build_r(&m);
    let mut code = m.rd.code();
    let mut trace = String::from("record");
    check_entry(&trace, &r, &m, code)?;
    let n = g.s.range(1, 6);
    for _ in 0..n {
        let before = r.clone();
        let op = g.s.below(if cfg!(feature = "mdns") { 8 } else { 7 });
        match op {
            0 => {
                m.name = g.name();
                r.set_name(fq(&m.name));
                trace += ", set_name";
            }
            1 => {
                code = g.pick_type();
                r.set_record_type(rtype(code));
                trace += ", set_record_type";
            }
            2 => {
                let c = g.class();
                let opt = g.s.bool();
                m.class = c;
                r.set_class(rclass(c, opt));
                trace += ", set_class";
            }
            3 => {
                m.ttl = g.u32();
                r.set_time_to_live(m.ttl);
                trace += ", set_time_to_live";
            }
            4 | 5 => {
                let t = g.pick_type();
                m.rd = g.rdata(t);
                if op == 4 {
                    r.set_data(build_rd(&m.rd));
                    trace += ", set_data";
                } else {
                    *r.data_mut() = build_rd(&m.rd);
                    trace += ", data_mut";
                }
            }
            6 => {
                // one that consists of parts of the others
                let d = r.clone().take_data();
                r = ResourceRecord::new(r.name().clone(), *r.record_type(), *r.class(), r.time_to_live(), d);
                m.flush = false;
                trace += ", new";
            }
            _ => {
                #[cfg(feature = "mdns")]
                {
                    m.flush = g.s.bool();
                    r.set_cache_flush(m.flush);
                    trace += ", set_cache_flush";
                }
            }
        }
        ctx.eval();
        check_entry(&trace, &r, &m, code)?;
        // the whole value follows its parts
        let same = unfq(before.name()) == m.name
            && before.record_type() == r.record_type()
            && before.class() == r.class()
            && before.time_to_live() == m.ttl
            && before.data() == r.data();
        #[cfg(feature = "mdns")]
        let same = same && before.cache_flush() == r.cache_flush();
        ensure!((before == r) == same, "{trace}: comparing with the previous value yields {}", before == r);
        let data = r.data().to_bytes();
        ensure!(r.data_raw() == data, "{trace}: raw data differ from the serialised data");
        let mut want = encode_name(&m.name);
        want.extend(code.to_be_bytes());
        want.extend((m.class | if m.flush { 0x8000 } else { 0 }).to_be_bytes());
        want.extend(m.ttl.to_be_bytes());
        if data.len() < 65536 {
            want.extend((data.len() as u16).to_be_bytes());
            want.extend(&data);
            ensure!(r.to_bytes() == want, "{trace}: {}", first_diff(&r.to_bytes(), &want));
        }
    }
    ctx.nontrivial_bytes(format!("{:?}", format!("{m:?}{trace}")).as_bytes());
    ensure!(r.data() == &r.clone().take_data(), "{trace}: taken data differ");

    // a question
    let mut m = g.question();
    #[cfg(not(feature = "mdns"))]
    {
        m.unicast = false;
    }
    let mut q = build_q(&m);
    check_q("question", &q, &m)?;
    for _ in 0..n {
        let before = q.clone();
        let other = g.question();
        let old = m.clone();
        match g.s.below(if cfg!(feature = "mdns") { 4 } else { 3 }) {
            0 => {
                m.name = other.name;
                q.set_name(fq(&m.name));
            }
            1 => {
                m.qtype = other.qtype;
                q.set_query_type(qtype(m.qtype));
            }
            2 => {
                m.qclass = other.qclass;
                q.set_class(qclass(m.qclass));
            }
            _ => {
                #[cfg(feature = "mdns")]
                {
                    m.unicast = other.unicast;
                    q.set_unicast_response(m.unicast);
                }
            }
        }
        ctx.eval();
        check_q("changed question", &q, &m)?;
        ensure!((before == q) == (old == m), "question {old:?} and {m:?} compare as {}", before == q);
        let mut want = encode_name(&m.name);
        want.extend(m.qtype.to_be_bytes());
        want.extend((m.qclass | if m.unicast { 0x8000 } else { 0 }).to_be_bytes());
        ensure!(q.to_bytes() == want, "question {m:?}: {}", first_diff(&q.to_bytes(), &want));
    }
    Ok(())
}

fn c22_data(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let mut g = G::new(s);
    let a = g.rdata(code);
    let near = g.s.bool();
    let b = if near { g.rdata(code) } else { g.record().rd };
    let (x, y) = (build_rd(&a), build_rd(&b));
    ctx.evals(2);
    ctx.class(type_name(code));
    ctx.nontrivial_bytes(format!("{:?}", format!("{a:?}{b:?}")).as_bytes());
    check_rd("built", &x, &a)?;
    check_rd("built", &y, &b)?;
    let c = x.clone();
    check_rd("copied", &c, &a)?;
    ensure!(c == x, "a copy differs from its original: {x:?}");
    if let Some(same) = same_data(&a, &b) {
        ensure!((x == y) == same, "{x:?} and {y:?} compare as {}", x == y);
        ensure!((y == x) == same, "{y:?} and {x:?} compare as {}", y == x);
    }
    Ok(())
}

/// Do these describe the same value? None if that is open.
fn same_data(a: &MR, b: &MR) -> Option<bool> {
    match (a, b) {
        // sets of flags, kept in an order of their own
        (MR::Naptr { flags: f, .. }, MR::Naptr { flags: g, .. }) if f != g => None,
        // repeated keys
        (MR::Svcb { params: p, .. }, MR::Svcb { params: q, .. }) if p != q && p.len() > 1 => None,
        _ => Some(a == b),
    }
}

fn c22_views(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    ctx.eval();
    match idx % 5 {
        0 => {
            // flags of CSYNC
            let start = g.s.below(4) as u16;
            let mut c = Csync::new(g.u32(), start.try_into().unwrap(), types(&g.type_set()));
            let (serial, t) = (c.soa_serial, c.types.clone());
            let mut want = start;
            for _ in 0..g.s.range(1, 6) {
                let v = g.s.bool();
                if g.s.bool() {
                    c.flags.set_immediate(v);
                    want = want & !1 | v as u16;
                } else {
                    c.flags.set_soa_minimum(v);
                    want = want & !2 | (v as u16) << 1;
                }
                ensure!(u16::from(c.flags) == want, "flags are {:?}, expected {want}", c.flags);
                ensure!(c.flags.immediate() == (want & 1 != 0), "immediate of {want} is {}", c.flags.immediate());
                ensure!(c.flags.soa_minimum() == (want & 2 != 0), "soa_minimum of {want} is {}", c.flags.soa_minimum());
                ensure!(c.soa_serial == serial && c.types == t, "setting a flag changed another field");
            }
            ctx.class("CSYNC flags");
            ctx.nontrivial_bytes(format!("{:?}", (0, want, serial)).as_bytes());
        }
        1 => {
            // mode of SVCB
            let mut r = g.rdata(64);
            if let MR::Svcb { prio, .. } = &mut r {
                if g.s.chance(1, 3) {
                    *prio = 0;
                }
                let p = *prio;
                ctx.class(if p == 0 { "alias mode" } else { "service mode" });
                ctx.nontrivial_bytes(format!("{:?}", (1, p)).as_bytes());
                if let RecordData::SVCB(mut x) = build_rd(&r) {
                    let mode = std::mem::discriminant(&x.mode());
                    x.priority = 0;
                    let alias = std::mem::discriminant(&x.mode());
                    x.priority = 1;
                    let service = std::mem::discriminant(&x.mode());
                    ensure!(alias != service, "alias and service mode are the same");
                    ensure!((mode == alias) == (p == 0) && (mode == service) == (p != 0), "mode of priority {p}");
                }
            }
        }
        2 => {
            // type of a gateway
            let r = g.rdata(45);
            if let (MR::IpSecKey { gw, .. }, RecordData::IPSECKEY(x)) = (&r, build_rd(&r)) {
                let want = match gw {
                    Gw::None => 0,
                    Gw::V4(_) => 1,
                    Gw::V6(_) => 2,
                    Gw::Name(_) => 3,
                };
                ctx.class("gateway");
                ctx.nontrivial_bytes(format!("{:?}", format!("{gw:?}")).as_bytes());
                ensure!(x.gateway.gateway_type() == want, "type of {:?} is {}", x.gateway, x.gateway.gateway_type());
            }
        }
        3 => {
            // the name of a pointer
            let (a, b) = (g.name(), g.name());
            let mut p = Ptr::new(fq(&a));
            ensure!(unfq(p.inner()) == a, "PTR of {} holds {}", show_name(&a), p.inner());
            let q = p.clone();
            *p.inner_mut() = fq(&b);
            ensure!(unfq(p.inner()) == b, "PTR changed to {} holds {}", show_name(&b), p.inner());
            ensure!(unfq(&p.into_inner()) == b, "PTR changed to {} yields another name", show_name(&b));
            ensure!(unfq(&q.into_inner()) == a, "PTR changed through its copy");
            ctx.class("PTR");
            ctx.nontrivial_bytes(format!("{:?}", (a, b)).as_bytes());
        }
        _ => {
            #[cfg(feature = "dnssec")]
            {
                // keys and NSEC
                let algo = *g.s.pick(DNSSEC_ALGS);
                let n = g.s.below(80) as usize;
                let data = g.bytes_len(n);
                let k = DnsKey::new(set(algo), data.clone());
                ensure!(!k.zone_key && !k.secure_entry_point, "flags of a new key are set");
                ensure!(k.protocol() == 3 && k.valid_protocol(), "protocol of a new key is {}", k.protocol());
                ensure!(k.public_key == data && u8::from(k.algorithm) == algo, "a new key has another content");
                let proto = g.u8();
                let mut wire = vec![1, 0, proto, algo];
                wire.extend(&data);
                if let Ok(k) = DnsKey::try_from(&mut DnsBuffer::from(&wire[..])) {
                    ensure!(k.protocol() == proto, "protocol {proto} is {}", k.protocol());
                    ensure!(k.valid_protocol() == (proto == 3), "validity of protocol {proto}");
                }
                let name = g.name();
                let t = types(&g.type_set());
                let e = Nsec::new(fq(&name));
                ensure!(unfq(&e.next_domain_name) == name && e.types.is_empty(), "NSEC without types: {e:?}");
                let e = Nsec::with_types(fq(&name), t.clone());
                ensure!(unfq(&e.next_domain_name) == name && e.types == t, "NSEC with types {t:?}: {e:?}");
                ctx.class("keys");
                ctx.nontrivial_bytes(format!("{:?}", (4, proto, data)).as_bytes());
            }
        }
    }
    Ok(())
}
