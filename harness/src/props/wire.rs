//! C02 to C07: the wire format.

use super::strict::{meaning, same_meaning};
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::Src;
use maybe_dns::*;
use std::convert::TryFrom;

pub fn decode(b: &[u8]) -> Result<Packet, DnsError> {
    Packet::try_from(b)
}

/// Non-trivial message: at least one name with two labels or more and one record.
pub fn msg_nontrivial(m: &MMsg) -> bool {
    m.records().next().is_some() && (m.records().any(|r| r.name.len() > 1) || m.q.iter().any(|q| q.name.len() > 1))
}

pub fn msg_classes(ctx: &mut Ctx, m: &MMsg) {
    for r in m.records() {
        ctx.class(type_name(r.rd.code()));
    }
    if m.records().next().is_none() {
        ctx.class("message without records");
    }
    if m.q.len() > 1 {
        ctx.class("several questions");
    }
    if m.records().any(|r| name_len(&r.name) >= 250) {
        ctx.class("name of maximal length");
    }
}

pub fn show_msg(m: &MMsg) -> String {
    let mut o = format!("id {:04x} flags {:04x}", m.id, m.flags);
    for q in &m.q {
        o.push_str(&format!(" q({} {} {}{})", show_name(&q.name), q.qtype, q.qclass, if q.unicast { " QU" } else { "" }));
    }
    for (s, v) in m.s.iter().enumerate() {
        for r in v {
            let d = rdata_plain(&r.rd, true);
            o.push_str(&format!(
                " {}({} {} class {}{} ttl {} {}{})",
                ["an", "ns", "ar"][s],
                show_name(&r.name),
                type_name(r.rd.code()),
                r.class,
                if r.flush { " flush" } else { "" },
                r.ttl,
                hex(&d[..d.len().min(24)]),
                if d.len() > 24 { format!("..[{}]", d.len()) } else { String::new() }
            ));
        }
    }
    o
}

fn note(ctx: &mut Ctx, m: &MMsg, bytes: &[u8]) {
    ctx.eval();
    if msg_nontrivial(m) {
        ctx.nontrivial_bytes(bytes);
    }
    msg_classes(ctx, m);
    if m.count() > 2 && m.count() < 8 {
        ctx.sample(|| show_msg(m));
    }
}

/// The type to generate in phases that go through all types.
pub fn type_of(idx: u64) -> u16 {
    let mut all = BASE_TYPES.to_vec();
    if HAS_DNSSEC {
        all.extend(DNSSEC_TYPES);
    }
    all[(idx % all.len() as u64) as usize]
}

// ---------------------------------------------------------------------------------------------
// C02

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "model messages and single values of every type are built through the API, serialised and decoded again; a case is non-trivial if it has a record and a name of two labels or more (messages) or data beyond the fixed part (single values); distinct by serialised octets",
        phases: vec![
            phase("message", 180000, 900000, c02_message),
            phase("limit", 4500, 40000, c02_limit),
            phase("single", 360000, 1500000, c02_single),
            phase("name", 120000, 400000, c02_name),
        ],
    }
}

fn c02_roundtrip(m: &MMsg, variant: u64, ctx: &mut Ctx) -> Res {
    let p = build(m, variant);
    let b = p.to_bytes();
    note(ctx, m, &b);
    let d = decode(&b).map_err(|e| format!("plain serialisation is not accepted: {e:?}"))?;
    ensure!(d == p, "decoded message differs from the one serialised: {}", first_diff(&d.to_bytes(), &b));
    check_packet(&d, m)?;
    Ok(())
}

fn c02_message(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let variant = s.below(256);
    let m = G::new(s).any_message();
    c02_roundtrip(&m, variant, ctx)
}

fn c02_limit(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let m = match idx % 16 {
        0 => g.huge_message(),
        1 => g.many_message(),
        2 | 3 => {
            g.big = true;
            let t = type_of(idx / 16);
            g.types = Some(vec![t]);
            let m = g.message();
            trim(m)
        }
        4..=6 => g.padded_message(),
        7 => g.many_questions(),
        _ => g.limit_message(),
    };
    c02_roundtrip(&m, idx, ctx)
}

fn c02_single(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let mut g = G::new(s);
    g.big = g.s.chance(1, 100);
    let mut r = g.record_of(code);
    if rdata_plain(&r.rd, true).len() > 65535 {
        r.rd = MR::A([1, 2, 3, 4]);
        r.class &= 0x7fff;
    }
    let code = r.rd.code();
    let q = g.question();
    ctx.class(type_name(code));
    ctx.eval();

    // record data
    let d = build_rd(&r.rd);
    let b = d.to_bytes();
    if b.len() > 16 {
        ctx.nontrivial_bytes(&b);
    }
    ctx.sample(|| format!("{} {}", type_name(code), hex(&b)));
    let mut buf = DnsBuffer::from(&b[..]);
    let back = RecordData::from(rtype(code), &mut buf).map_err(|e| format!("{} data is not accepted: {e:?} ({})", type_name(code), hex(&b)))?;
    ensure!(back == d, "{} data changes in a round trip: {:?} / {:?}", type_name(code), Short(&d), Short(&back));
    check_rd(type_name(code), &back, &r.rd)?;
    ensure!(buf.remaining() == 0, "{} data: {} octets are not read back", type_name(code), buf.remaining());

    // record
    let rec = build_r(&r);
    let b = rec.to_bytes();
    let mut buf = DnsBuffer::from(&b[..]);
    let back = ResourceRecord::try_from(&mut buf).map_err(|e| format!("{} record is not accepted: {e:?}", type_name(code)))?;
    ensure!(back == rec, "{} record changes in a round trip", type_name(code));
    check_r("record", &back, &r)?;
    ensure!(buf.remaining() == 0, "{} record: {} octets are not read back", type_name(code), buf.remaining());

    // question
    let qu = build_q(&q);
    let b = qu.to_bytes();
    let mut buf = DnsBuffer::from(&b[..]);
    let back = Question::try_from(&mut buf).map_err(|e| format!("question is not accepted: {e:?}"))?;
    ensure!(back == qu, "question changes in a round trip");
    check_q("question", &back, &q)?;
    ensure!(buf.remaining() == 0, "question: {} octets are not read back", buf.remaining());
    Ok(())
}

fn c02_name(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    for _ in 0..4 {
        let n = g.name();
        ctx.eval();
        if n.len() > 1 {
            ctx.nontrivial_bytes(&encode_name(&n));
        }
        ctx.sample(|| show_name(&n));
        let f = fq(&n);
        let b = f.to_bytes();
        let mut buf = DnsBuffer::from(&b[..]);
        let back = FQDN::try_from(&mut buf).map_err(|e| format!("name {} is not accepted: {e:?}", show_name(&n)))?;
        ensure!(back == f, "name {} changes in a round trip", show_name(&n));
        ensure!(unfq(&back) == n, "name {} is read back as {}", show_name(&n), show_name(&unfq(&back)));
        ensure!(buf.remaining() == 0, "name: {} octets are not read back", buf.remaining());
    }
    // header
    let id = g.u16();
    let flags = g.flags();
    let mut b = id.to_be_bytes().to_vec();
    b.extend(flags.to_be_bytes());
    for _ in 0..4 {
        b.extend(g.u16().to_be_bytes());
    }
    let mut buf = DnsBuffer::from(&b[..]);
    let h = Header::try_from(&mut buf).map_err(|e| format!("header {} is not accepted: {e:?}", hex(&b)))?;
    let b2 = h.to_bytes();
    ensure!(b == b2, "header {} is written back as {}", hex(&b), hex(&b2));
    let mut buf = DnsBuffer::from(&b2[..]);
    let h2 = Header::try_from(&mut buf).map_err(|e| format!("header is not accepted again: {e:?}"))?;
    ensure!(h == h2, "header {} changes in a round trip", hex(&b));
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        rule: "model messages with names that share tails are serialised with compression, walked octet by octet and decoded; a case is non-trivial if the compressed form contains a pointer; distinct by compressed octets",
        phases: vec![
            phase("table", 1, 1, c03_table),
            phase("message", 80000, 1200000, c03_message),
            phase("names", 60000, 800000, c03_names),
            phase("limit", 10000, 150000, c03_limit),
            phase("decoded", 16000, 200000, c03_decoded),
            phase("empty-labels", 12000, 100000, c03_empty),
            phase("many-names", 96, 2400, c03_many),
        ],
    }
}

/// Types that may contain compressed names. RFC 1035 types, and SRV, NAPTR and NSEC, for which the
/// library documents that it allows compression.
fn may_compress(t: u16) -> bool {
    COMPRESSIBLE.contains(&t)
}

fn c03_table(_s: &mut Src, ctx: &mut Ctx, _i: u64) -> Res {
    for i in 0..(BASE_TYPES.len() + DNSSEC_TYPES.len()) as u64 {
        let t = type_of(i);
        ctx.eval();
        let want = may_compress(t) || t == 16;
        ensure!(
            rtype(t).compression_allowed() == want,
            "compression_allowed of {} is {}",
            type_name(t),
            !want
        );
    }
    Ok(())
}

/// Messages with thousands of unlike names, so that tails of names which are confused with each
/// other (because only a digest of them is compared, for example) have a chance to meet.
fn c03_many(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let style = s.below(6);
    let n = s.draw(4000, |_| [2200, 2200, 3000, 3000, 3000, 3000][style as usize]) as u64;
    let mut r = crate::src::Rng::new(s.below(1 << 40));
    let mut p = Packet::new_query(idx as u16, true);
    let mut names = Vec::with_capacity(n as usize);
    for _ in 0..n {
        let labels: Vec<Vec<u8>> = match style {
            // as many tails as possible
            0 | 1 => (0..126).map(|_| vec![r.next() as u8]).collect(),
            // the same octets, divided differently
            2 => (0..r.below(4) + 1)
                .map(|_| (0..r.below(3) + 1).map(|_| b"ab"[r.below(2) as usize]).collect())
                .collect(),
            // letter case, dots, length octets and the digits of printed octets inside labels
            3 => (0..r.below(3) + 1)
                .map(|_| (0..r.below(3) + 1).map(|_| b"aA.\x01\x02a0"[r.below(7) as usize]).collect())
                .collect(),
            // octets that are not text
            4 => (0..r.below(2) + 1)
                .map(|_| (0..r.below(3) + 1).map(|_| b"\x80\xff\xc3\xa4"[r.below(4) as usize]).collect())
                .collect(),
            // the same labels in another order
            _ => (0..r.below(5) + 1)
                .map(|_| [&b"a"[..], b"bb", b"c", b"dddd"][r.below(4) as usize].to_vec())
                .collect(),
        };
        p.add_question(Question::new(maybe_dns::FQDN::from(labels.clone()), maybe_dns::QType::A, maybe_dns::QClass::IN));
        names.push(labels);
    }
    let plain = p.to_bytes();
    let comp = p.to_bytes_compressed();
    ctx.eval();
    ctx.class(["many tails", "many tails", "divided", "case and dots", "not text", "order"][style as usize]);
    ensure!(comp.len() <= plain.len(), "compressed form has {} octets, plain form {}", comp.len(), plain.len());
    if comp.len() < plain.len() {
        ctx.nontrivial_bytes(&comp);
    }
    let back = match Packet::try_from(comp.as_slice()) {
        Ok(b) => b,
        Err(e) => return Err(format!("compressed form is rejected: {e:?}")),
    };
    ensure!(back.questions().len() == names.len(), "{} questions instead of {}", back.questions().len(), names.len());
    for (i, (q, want)) in back.questions().iter().zip(&names).enumerate() {
        let got: Vec<Vec<u8>> = q.name().iter().map(|l| l.to_vec()).collect();
        ensure!(
            got == *want,
            "name {} of {}: {} is read from the compressed form as {}",
            i,
            names.len(),
            show_name(want),
            show_name(&got)
        );
    }
    Ok(())
}

fn c03_check(m: &MMsg, p: &Packet, ctx: &mut Ctx) -> Res {
    let plain = p.to_bytes();
    let comp = p.to_bytes_compressed();
    ctx.eval();
    msg_classes(ctx, m);
    let st = walk(
        &comp,
        m,
        &WalkOpts {
            compressed: true,
            may_compress: &may_compress,
            full_names: true,
        },
    )?;
    if st.pointers > 0 {
        ctx.nontrivial_bytes(&comp);
        ctx.class("with pointer");
    }
    if st.full_repeats > 0 {
        ctx.class("repeated name");
    }
    if st.near_limit > 0 {
        ctx.class("pointer to 0x3f00 or later");
    }
    if st.beyond > 0 {
        ctx.class("name beyond 0x3fff");
    }
    if m.count() > 2 && m.count() < 8 && st.pointers > 0 {
        ctx.sample(|| format!("{} compressed to {}", show_msg(m), hex(&comp[..comp.len().min(100)])));
    }
    ensure!(comp.len() <= plain.len(), "compressed form has {} octets, plain one {}", comp.len(), plain.len());
    let d = decode(&comp).map_err(|e| format!("compressed serialisation is not accepted: {e:?}"))?;
    ensure!(&d == p, "message decoded from the compressed form differs");
    check_packet(&d, m)?;
    let d2 = decode(&plain).map_err(|e| format!("plain serialisation is not accepted: {e:?}"))?;
    ensure!(d == d2, "plain and compressed form decode to different messages");
    Ok(())
}

fn c03_message(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let m = G::new(s).any_message();
    c03_check(&m, &build(&m, idx), ctx)
}

/// Only types with names, few different labels.
fn c03_names(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let mut t = COMPRESSIBLE.to_vec();
    if !HAS_DNSSEC {
        t.retain(|c| *c != 47);
    }
    t.extend([1, 45, 55, 64, 249, 250]);
    if HAS_DNSSEC {
        t.push(46);
    }
    g.types = Some(t);
    let m = g.message();
    c03_check(&m, &build(&m, idx), ctx)
}

fn c03_limit(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let m = match idx % 12 {
        0 => g.huge_message(),
        1..=4 => g.padded_message(),
        5 => g.many_questions(),
        _ => g.limit_message(),
    };
    c03_check(&m, &build(&m, idx), ctx)
}

/// Messages that were decoded from other compressed forms.
fn c03_decoded(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.any_message()
    };
    let e = encode(&m, &mut Policy::Random(s), true);
    match decode(&e.bytes) {
        Ok(p) => c03_check(&m, &p, ctx),
        // not what this property is about
        Err(_) => Ok(()),
    }
}

/// Names may contain empty labels, which have no encoding.
fn c03_empty(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    g.types = Some(vec![1, 2, 5, 6, 12, 14, 15, 33]);
    let mut m = g.message();
    let mut p = build(&m, idx);
    // Put empty labels into owner and question names of the packet only
    let hole = |s: &mut Src, n: &Name| -> FQDN {
        let mut n = n.clone();
        let k = s.below(3);
        for _ in 0..k {
            let i = s.below(n.len() as u64 + 1) as usize;
            n.insert(i, vec![]);
        }
        FQDN::from(n)
    };
    for (i, q) in m.q.iter().enumerate() {
        let n = hole(s, &q.name);
        p.questions_mut()[i].set_name(n);
    }
    let mut an = p.take_answers();
    for (i, r) in an.iter_mut().enumerate() {
        r.set_name(hole(s, &m.s[0][i].name));
        if let RecordData::PTR(x) = r.data_mut() {
            if let MR::Ptr(n) = &m.s[0][i].rd {
                *x.inner_mut() = hole(s, n);
            }
        }
    }
    p.set_answers(an);
    m.flags &= 0xffff;
    ctx.eval();
    let plain = p.to_bytes();
    let comp = p.to_bytes_compressed();
    let st = walk(
        &comp,
        &m,
        &WalkOpts {
            compressed: true,
            may_compress: &may_compress,
            full_names: false,
        },
    )?;
    if st.pointers > 0 {
        ctx.nontrivial_bytes(&comp);
    }
    ensure!(comp.len() <= plain.len(), "compressed form has {} octets, plain one {}", comp.len(), plain.len());
    let d = decode(&comp).map_err(|e| format!("compressed serialisation is not accepted: {e:?}"))?;
    let d2 = decode(&plain).map_err(|e| format!("plain serialisation is not accepted: {e:?}"))?;
    ensure!(d == d2, "plain and compressed form decode to different messages");
    check_packet(&d, &m)
}

// ---------------------------------------------------------------------------------------------
// C04

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "values of every serialisable kind, built through the API or decoded, are measured and serialised; non-trivial: more than 16 octets; distinct by octets",
        phases: vec![
            phase("codes", 1, 1, c04_codes),
            phase("svcb-params", 64, 64, c04_svcb),
            phase("message", 100000, 600000, c04_message),
            phase("single", 400000, 2000000, c04_single),
            phase("names", 100000, 400000, c04_names),
            phase("decoded", 100000, 600000, c04_decoded),
        ],
    }
}

fn size<T: ByteConvertible>(ctx: &mut Ctx, what: &str, v: &T, params: usize) -> Res {
    let n = v.byte_size();
    let b = v.to_bytes();
    ctx.eval();
    if b.len() > 16 {
        ctx.nontrivial_bytes(&b);
    }
    if n == b.len() {
        return Ok(());
    }
    let msg = || format!("{what}: size is given as {n}, but the serialisation has {} octets", b.len());
    if params > 0 && n == b.len() + 4 * params {
        return ctx.known("svcb-param-size", msg);
    }
    Err(msg())
}

fn params_of(d: &RecordData) -> usize {
    match d {
        RecordData::SVCB(s) => s.params.len(),
        _ => 0,
    }
}

fn size_rd(ctx: &mut Ctx, d: &RecordData) -> Res {
    let n = params_of(d);
    size(ctx, type_name(rd_code(d)), d, n)?;
    macro_rules! inner {
        ($($v:ident)*; $($dv:ident)*) => {
            match d {
                $(RecordData::$v(x) => size(ctx, stringify!($v), x, n)?,)*
                $(#[cfg(feature = "dnssec")] RecordData::$dv(x) => size(ctx, stringify!($dv), x, n)?,)*
            }
        };
    }
    inner!(A NS CNAME SOA NULL WKS PTR HINFO MINFO MX TXT AAAA LOC SRV NAPTR OPT APL SSHFP IPSECKEY DHCID TLSA HIP
        OPENPGPKEY CSYNC SVCB EUI48 EUI64 TKEY TSIG URI CAA; DS RRSIG NSEC DNSKEY CDS CDNSKEY);
    match d {
        RecordData::SVCB(s) => {
            for p in &s.params {
                size(ctx, "SVCB parameter", p, 0)?;
            }
        }
        RecordData::APL(a) => size(ctx, "APL address", &a.afd_part, 0)?,
        RecordData::IPSECKEY(k) => size(ctx, "IPSECKEY gateway", &k.gateway, 0)?,
        _ => {}
    }
    Ok(())
}

fn size_packet(ctx: &mut Ctx, p: &Packet) -> Res {
    let mut n = 0;
    for q in p.questions() {
        size(ctx, "question", q, 0)?;
        size(ctx, "name", q.name(), 0)?;
    }
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        let k = params_of(r.data());
        n += k;
        size(ctx, &format!("{} record", type_name(rd_code(r.data()))), r, k)?;
        size_rd(ctx, r.data())?;
        size(ctx, "name", r.name(), 0)?;
    }
    size(ctx, "header", p.header(), 0)?;
    size(ctx, "message", p, n)
}

fn c04_codes(_s: &mut Src, ctx: &mut Ctx, _i: u64) -> Res {
    for c in 0..=65535u16 {
        if let Ok(t) = RecordType::try_from(c) {
            size(ctx, "type", &t, 0)?;
        }
        if let Ok(t) = QType::try_from(c) {
            size(ctx, "query type", &t, 0)?;
        }
        if let Ok(t) = QClass::try_from(c) {
            size(ctx, "query class", &t, 0)?;
        }
        size(ctx, "class", &RecordClass::from(c), 0)?;
        size(ctx, "class", &RecordClass::UdpPayloadSize(c), 0)?;
    }
    Ok(())
}

fn c04_svcb(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let keys = [0u16, 1, 2, 3, 4, 5, 6, 65280, 65534, 65535];
    let mut g = G::new(s);
    let n = (idx % 10) as usize;
    let params: Vec<P> = keys[..n].iter().map(|k| g.param(*k)).collect();
    let r = MR::Svcb {
        prio: 1,
        target: g.name(),
        params,
    };
    ctx.class("SVCB");
    size_rd(ctx, &build_rd(&r))
}

fn c04_message(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let m = G::new(s).any_message();
    msg_classes(ctx, &m);
    if m.count() > 2 && m.count() < 8 {
        ctx.sample(|| show_msg(&m));
    }
    size_packet(ctx, &build(&m, idx))
}

fn c04_single(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let mut g = G::new(s);
    g.big = g.s.chance(1, 100);
    let rd = g.rdata(code);
    if rdata_plain(&rd, true).len() > 65535 {
        return Ok(());
    }
    let d = build_rd(&rd);
    ctx.class(type_name(code));
    ctx.sample(|| format!("{} {}", type_name(code), hex(&d.to_bytes())));
    size_rd(ctx, &d)?;
    // record sets
    let name = fq(&g.name());
    let k = g.s.below(4) as usize;
    let more: Vec<RecordData> = (0..k)
        .map(|_| g.rdata(code))
        .filter(|r| rdata_plain(r, true).len() <= 65535)
        .map(|r| build_rd(&r))
        .collect();
    let mut all: Vec<&RecordData> = vec![&d];
    all.extend(&more);
    let params = all.iter().map(|d| params_of(d)).sum();
    let class = rclass(g.class(), false);
    let ttl = g.u32();
    let set = ResourceRecordSet::new(&name, rtype(code), class, ttl, all);
    size(ctx, "record set", &set, params)?;
    let empty = ResourceRecordSet::new(&name, rtype(code), class, ttl, vec![]);
    size(ctx, "empty record set", &empty, 0)
}

fn c04_names(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    for _ in 0..4 {
        let mut n = g.name();
        let k = g.s.weighted(&[4, 2, 1]);
        for _ in 0..k {
            let i = g.s.below(n.len() as u64 + 1) as usize;
            // empty labels and labels that are too long can be put into names
            let l = if g.s.chance(1, 4) { g.blob(300) } else { vec![] };
            n.insert(i, l);
        }
        let f = fq(&n);
        ctx.sample(|| show_name(&n));
        size(ctx, "name", &f, 0)?;
        ensure!(f.len() == f.byte_size(), "len() of a name is {}, byte_size() {}", f.len(), f.byte_size());
        let q = Question::new(f.clone(), QType::A, QClass::IN);
        size(ctx, "question", &q, 0)?;
        let r = ResourceRecord::new(f.clone(), RecordType::NS, RecordClass::IN, 0, build_rd(&MR::Ns(n.clone())));
        size(ctx, "NS record", &r, 0)?;
    }
    Ok(())
}

fn c04_decoded(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = any_bytes(s, idx);
    match decode(&b) {
        Ok(p) => {
            ctx.class("accepted");
            if fits(&p) {
                size_packet(ctx, &p)?;
            }
        }
        Err(_) => ctx.class("rejected"),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// byte strings

/// A byte string that is or was a message: reference encoding with arbitrary legal compression,
/// mostly mutated.
pub fn any_bytes(s: &mut Src, idx: u64) -> Vec<u8> {
    let m = {
        let mut g = G::new(s);
        if idx % 3 == 0 {
            // one type at a time
            let t = type_of(idx / 3);
            g.types = Some(vec![t]);
        }
        if idx % 64 == 63 {
            g.limit_message()
        } else if idx % 64 == 62 {
            g.padded_message()
        } else {
            g.message()
        }
    };
    let dot = s.bool();
    let e = encode(&m, &mut Policy::Random(s), dot);
    let mut b = e.bytes.clone();
    let mk = marks(&e);
    if idx % 5 != 0 {
        mutate(s, &mut b, &mk);
    }
    b
}

/// Data longer than 65535 octets can come out of decompression, and has no encoding.
pub fn fits(p: &Packet) -> bool {
    p.answers()
        .iter()
        .chain(p.authorities())
        .chain(p.additionals())
        .all(|r| r.data().to_bytes().len() <= 65535)
}

// ---------------------------------------------------------------------------------------------
// C05

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "model messages and single values of every type are built through the API and the serialisation is compared octet by octet with the wire format written from the RFCs; non-trivial: a record and a name of two labels or more, or more than 16 octets of data; distinct by octets",
        phases: vec![
            phase("codes", 1, 1, c05_codes),
            phase("ipseckey-none", 40, 40, c05_ipseckey),
            phase("message", 60000, 900000, c05_message),
            phase("limit", 2000, 20000, c05_limit),
            phase("single", 160000, 2000000, c05_single),
        ],
    }
}

fn plain_opts() -> WalkOpts<'static> {
    WalkOpts {
        compressed: false,
        may_compress: &|_| false,
        full_names: false,
    }
}

fn c05_walk(ctx: &mut Ctx, b: &[u8], m: &MMsg) -> Res {
    let st = walk(b, m, &plain_opts())?;
    if st.gw_dots > 0 {
        ctx.known("ipseckey-no-gateway", || "IPSECKEY without gateway contains an octet for it".into())?;
    }
    Ok(())
}

fn c05_codes(_s: &mut Src, ctx: &mut Ctx, _i: u64) -> Res {
    for i in 0..(BASE_TYPES.len() + DNSSEC_TYPES.len()) as u64 {
        let c = type_of(i);
        ctx.evals(2);
        ensure!(rtype(c).to_bytes() == c.to_be_bytes(), "type {c} is written as {}", hex(&rtype(c).to_bytes()));
        ensure!(qtype(c).to_bytes() == c.to_be_bytes(), "query type {c} is written as {}", hex(&qtype(c).to_bytes()));
    }
    for c in QUERY_TYPES {
        ctx.eval();
        ensure!(qtype(*c).to_bytes() == c.to_be_bytes(), "query type {c} is written as {}", hex(&qtype(*c).to_bytes()));
    }
    for c in [1, 2, 3, 4, 254, 255u16] {
        ctx.eval();
        ensure!(qclass(c).to_bytes() == c.to_be_bytes(), "query class {c} is written as {}", hex(&qclass(c).to_bytes()));
    }
    for c in 0..=65535u16 {
        ctx.evals(2);
        let b = RecordClass::UdpPayloadSize(c).to_bytes();
        ensure!(b == c.to_be_bytes(), "payload size {c} is written as {}", hex(&b));
        let b = rclass(c, false).to_bytes();
        ensure!(b == c.to_be_bytes(), "class {c} is written as {}", hex(&b));
    }
    Ok(())
}

fn c05_ipseckey(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let r = MR::IpSecKey {
        prec: g.u8(),
        alg: g.s.below(6) as u8,
        gw: Gw::None,
        key: g.blob(100),
    };
    ctx.eval();
    let st = walk_rdata(&build_rd(&r).to_bytes(), &r)?;
    if st.gw_dots > 0 {
        ctx.known("ipseckey-no-gateway", || "IPSECKEY without gateway contains an octet for it".into())?;
    }
    Ok(())
}

fn c05_message(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let variant = s.below(256);
    let m = G::new(s).any_message();
    let b = build(&m, variant).to_bytes();
    note(ctx, &m, &b);
    c05_walk(ctx, &b, &m)
}

fn c05_limit(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let m = match idx % 8 {
        0 => g.huge_message(),
        1 => g.many_message(),
        2 => g.many_questions(),
        3 => g.padded_message(),
        _ => {
            g.big = true;
            g.types = Some(vec![type_of(idx / 8)]);
            let m = g.message();
            trim(m)
        }
    };
    let b = build(&m, idx).to_bytes();
    note(ctx, &m, &b);
    c05_walk(ctx, &b, &m)
}

fn c05_single(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let mut g = G::new(s);
    g.big = g.s.chance(1, 200);
    let r = g.record_of(code);
    if rdata_plain(&r.rd, true).len() > 65535 {
        return Ok(());
    }
    let q = g.question();
    ctx.eval();
    ctx.class(type_name(code));
    let rec = build_r(&r);
    let b = rec.data().to_bytes();
    if b.len() > 16 {
        ctx.nontrivial_bytes(&b);
    }
    ctx.sample(|| format!("{} {}", type_name(code), hex(&b)));
    let st = walk_rdata(&b, &r.rd)?;
    if st.gw_dots > 0 {
        ctx.known("ipseckey-no-gateway", || "IPSECKEY without gateway contains an octet for it".into())?;
    }
    ensure!(rec.data_raw() == b, "data_raw of a {} record differs from the encoded data", type_name(code));
    // Record and question on their own are what they are in a message without anything else
    let mut m = MMsg::default();
    m.s[0].push(r);
    let mut msg = vec![0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0];
    msg.extend(rec.to_bytes());
    c05_walk(ctx, &msg, &m)?;
    let mut m = MMsg::default();
    let mut msg = vec![0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0];
    msg.extend(build_q(&q).to_bytes());
    m.q.push(q);
    c05_walk(ctx, &msg, &m)
}

// ---------------------------------------------------------------------------------------------
// C06

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "model messages are encoded by an independent encoder with an arbitrary legal mixture of labels and pointers and decoded by the library; non-trivial: the encoding contains a pointer; distinct by octets",
        phases: vec![
            phase("ipseckey-none", 40, 40, c06_ipseckey),
            phase("txt-octets", 64, 64, c06_txt),
            phase("message", 80000, 1200000, c06_message),
            phase("limit", 4000, 40000, c06_limit),
            phase("entries", 40000, 500000, c06_entries),
            phase("single", 120000, 1500000, c06_single),
        ],
    }
}

fn c06_ipseckey(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let mut key = g.blob(100);
    if idx % 8 == 0 {
        key.clear();
    }
    let (prec, alg) = (g.u8(), g.s.below(6) as u8);
    let r = MR::IpSecKey {
        prec,
        alg,
        gw: Gw::None,
        key: key.clone(),
    };
    ctx.eval();
    let b = rdata_plain(&r, false);
    let mut buf = DnsBuffer::from(&b[..]);
    match RecordData::from(rtype(45), &mut buf) {
        Ok(d) => {
            if let Err(e) = check_rd("IPSECKEY", &d, &r) {
                ensure!(!key.is_empty(), "{e}");
                let cut = MR::IpSecKey {
                    prec,
                    alg,
                    gw: Gw::None,
                    key: key[1..].to_vec(),
                };
                check_rd("IPSECKEY", &d, &cut)?;
                ctx.known("ipseckey-no-gateway", || e)?;
            }
        }
        Err(e) => {
            ensure!(key.is_empty(), "IPSECKEY without gateway is rejected: {e:?}");
            ctx.known("ipseckey-no-gateway", || format!("IPSECKEY without gateway and key is rejected: {e:?}"))?;
        }
    }
    Ok(())
}

/// Character strings are arbitrary octets.
fn c06_txt(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut strings = vec![g.blob(80)];
    while g.s.more(strings.len(), 1, 3) {
        strings.push(g.blob(80));
    }
    strings.push(vec![b'k', b'=', 0xff, 0xfe]);
    let mut b = Vec::new();
    for t in &strings {
        b.push(t.len() as u8);
        b.extend(t);
    }
    ctx.eval();
    let mut buf = DnsBuffer::from(&b[..]);
    match RecordData::from(rtype(16), &mut buf) {
        Ok(RecordData::TXT(t)) => {
            ensure!(t.0.len() == strings.len(), "TXT has {} strings, expected {}", t.0.len(), strings.len());
            for (x, w) in t.0.iter().zip(&strings) {
                if x.as_bytes() != &w[..] {
                    ensure!(
                        std::str::from_utf8(w).is_err() && x.as_str() == String::from_utf8_lossy(w),
                        "TXT string {} is read as {x:?}",
                        hex(w)
                    );
                    ctx.known("lossy-text", || format!("TXT string {} is read as {x:?}", hex(w)))?;
                }
            }
            Ok(())
        }
        x => Err(format!("TXT {} is read as {x:?}", hex(&b))),
    }
}

fn c06_decode(m: &MMsg, s: &mut Src, ctx: &mut Ctx) -> Result<Enc, String> {
    let e = encode(m, &mut Policy::Random(s), true);
    ctx.eval();
    msg_classes(ctx, m);
    if e.pointers > 0 {
        ctx.nontrivial_bytes(&e.bytes);
        ctx.class("with pointer");
    }
    if m.count() > 2 && m.count() < 8 && e.pointers > 0 {
        ctx.sample(|| format!("{} encoded as {}", show_msg(m), hex(&e.bytes[..e.bytes.len().min(120)])));
    }
    let p = decode(&e.bytes).map_err(|x| format!("well-formed message is rejected: {x:?}: {}", hex(&e.bytes[..e.bytes.len().min(200)])))?;
    check_packet(&p, m)?;
    Ok(e)
}

fn c06_message(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.gw_none = false;
        g.any_message()
    };
    c06_decode(&m, s, ctx).map(|_| ())
}

fn c06_limit(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.gw_none = false;
        match idx % 8 {
            0 => g.huge_message(),
            1 => g.many_message(),
            2 => g.many_questions(),
            3 | 4 => g.padded_message(),
            _ => g.limit_message(),
        }
    };
    c06_decode(&m, s, ctx).map(|_| ())
}

/// Questions and records read one by one from their positions in the message.
fn c06_entries(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.gw_none = false;
        g.any_message()
    };
    let e = encode(&m, &mut Policy::Random(s), true);
    ctx.eval();
    if e.pointers > 0 {
        ctx.nontrivial_bytes(&e.bytes);
    }
    for (i, (start, end)) in e.q.iter().enumerate() {
        let mut buf = DnsBuffer::from(&e.bytes[..]);
        buf.set_position(*start).map_err(|e| format!("{e:?}"))?;
        let q = Question::try_from(&mut buf).map_err(|e| format!("question {i} is rejected: {e:?}"))?;
        check_q(&format!("question {i}"), &q, &m.q[i])?;
        ensure!(buf.position() == *end, "question {i} ends at {}, expected {end}", buf.position());
    }
    for (i, (pos, r)) in e.r.iter().zip(m.records()).enumerate() {
        let what = format!("record {i} ({})", type_name(r.rd.code()));
        let mut buf = DnsBuffer::from(&e.bytes[..]);
        buf.set_position(pos.start).map_err(|e| format!("{e:?}"))?;
        let x = ResourceRecord::try_from(&mut buf).map_err(|e| format!("{what} is rejected: {e:?}"))?;
        check_r(&what, &x, r)?;
        ensure!(buf.position() == pos.end, "{what} ends at {}, expected {}", buf.position(), pos.end);
    }
    Ok(())
}

fn c06_single(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let mut m = MMsg::default();
    {
        let mut g = G::new(s);
        g.gw_none = false;
        g.big = g.s.chance(1, 200);
        // a record with names to point to, and the record itself
        let name = g.name();
        m.q.push(MQ {
            name,
            qtype: 1,
            qclass: 1,
            unicast: false,
        });
        let r = g.record_of(code);
        m.s[0].push(r);
        if g.s.chance(1, 4) {
            let r = g.record_of(code);
            m.s[0].push(r);
        }
    }
    let mut m = trim(m);
    // flags of NAPTR records are not case-sensitive (RFC 3403 4.1)
    let mut e = encode(&m, &mut Policy::Random(s), true);
    ctx.eval();
    ctx.class(type_name(code));
    for (r, pos) in m.s[0].iter().zip(&e.r) {
        // reserved flags are ignored by receivers (RFC 8659 4.1, RFC 4034 2.1.1)
        match &r.rd {
            MR::Caa { .. } if s.bool() => {
                e.bytes[pos.rdata] |= s.below(128) as u8;
                ctx.class("reserved flags");
            }
            MR::DnsKey { .. } if s.bool() => {
                e.bytes[pos.rdata] |= s.below(256) as u8 & 0xfe;
                e.bytes[pos.rdata + 1] |= s.below(256) as u8 & 0xfe;
                ctx.class("reserved flags");
            }
            _ => {}
        }
        if let MR::Naptr { flags, .. } = &r.rd {
            let at = pos.rdata + 5;
            for i in 0..flags.len() {
                if s.bool() {
                    e.bytes[at + i] = e.bytes[at + i].to_ascii_lowercase();
                    ctx.class("lower case NAPTR flag");
                }
            }
        }
    }
    if e.bytes.len() > 40 {
        ctx.nontrivial_bytes(&e.bytes);
    }
    let p = decode(&e.bytes).map_err(|x| format!("well-formed {} message is rejected: {x:?}: {}", type_name(code), hex(&e.bytes[..e.bytes.len().min(200)])))?;
    m.id = 0;
    check_packet(&p, &m)
}

// ---------------------------------------------------------------------------------------------
// C07

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "byte strings (well-formed with arbitrary legal compression, mutated, random) are decoded; what is accepted is serialised and decoded twice, plain and compressed; non-trivial: accepted and containing a record or question; distinct by input octets",
        phases: vec![
            phase("lossy-text", 40, 40, c07_lossy),
            phase("mutated", 120000, 2500000, c07_mutated),
            phase("rdata", 160000, 2500000, c07_rdata),
            phase("random", 40000, 500000, c07_random),
            phase("wellformed", 20000, 300000, c07_wellformed),
        ],
    }
}

/// Text that was decoded lossily and no longer fits.
fn overlong_text(p: &Packet) -> bool {
    p.answers()
        .iter()
        .chain(p.authorities())
        .chain(p.additionals())
        .any(|r| match r.data() {
            RecordData::TXT(t) => t.0.iter().any(|s| s.len() > 255 && s.contains('\u{fffd}')),
            RecordData::CAA(c) => c.tag.len() > 255 && c.tag.contains('\u{fffd}'),
            _ => false,
        })
}

pub fn c07_check(b: &[u8], ctx: &mut Ctx) -> Res {
    ctx.eval();
    let p = match decode(b) {
        Ok(p) => p,
        Err(_) => {
            ctx.class("rejected");
            return Ok(());
        }
    };
    ctx.class("accepted");
    if !fits(&p) {
        ctx.class("accepted, but too long without compression");
        return Ok(());
    }
    if !p.questions().is_empty() || !p.answers().is_empty() || !p.authorities().is_empty() || !p.additionals().is_empty() {
        ctx.nontrivial_bytes(b);
    }
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        ctx.class(type_name(rd_code(r.data())));
    }
    if b.len() < 120 {
        ctx.sample(|| format!("accepted {}", hex(b)));
    }
    let mut go = || -> Res {
        let b1 = p.to_bytes();
        let p1 = decode(&b1).map_err(|e| format!("re-serialised message is rejected: {e:?} (input {})", hex(&b[..b.len().min(200)])))?;
        ensure!(p1 == p, "re-serialised message differs (input {})", hex(&b[..b.len().min(200)]));
        let b2 = p1.to_bytes();
        ensure!(b1 == b2, "serialisation is not stable: {}", first_diff(&b1, &b2));
        let c1 = p.to_bytes_compressed();
        let q1 = decode(&c1).map_err(|e| format!("message re-serialised with compression is rejected: {e:?} (input {})", hex(&b[..b.len().min(200)])))?;
        ensure!(q1 == p, "message re-serialised with compression differs (input {})", hex(&b[..b.len().min(200)]));
        let c2 = q1.to_bytes_compressed();
        ensure!(c1 == c2, "compressed serialisation is not stable: {}", first_diff(&c1, &c2));
        ensure!(q1.to_bytes() == b1, "plain serialisation after compression differs");
        // what is passed on says what was received, for a reader other than the library
        if let Some(m) = meaning(b) {
            if m.entries.iter().any(|e| e.data.is_some()) {
                ctx.class("compared with the received octets by the reference");
            }
            for (how, bytes) in [("plain", &b1), ("compressed", &c1)] {
                same_meaning(&m, bytes).map_err(|e| format!("{how} re-serialisation changes the meaning: {e} (input {})", hex(&b[..b.len().min(200)])))?;
            }
        }
        Ok(())
    };
    match go() {
        Err(e) if overlong_text(&p) => ctx.known("lossy-text", || e),
        r => r,
    }
}

fn c07_lossy(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let n = if idx == 0 { 100 } else { s.range(86, 255) as u8 };
    let mut b = vec![0, 0, 0x80, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0];
    b.extend([0, 16, 0, 1, 0, 0, 0, 0]);
    b.extend((n as u16 + 1).to_be_bytes());
    b.push(n);
    b.extend(vec![0xff; n as usize]);
    c07_check(&b, ctx)
}

fn c07_mutated(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = any_bytes(s, idx);
    c07_check(&b, ctx)
}

/// One record whose data is mutated, with a matching length, so that the rest stays well-formed.
pub fn rdata_bytes(s: &mut Src, idx: u64) -> Vec<u8> {
    let code = type_of(idx);
    let mut m = MMsg {
        flags: 0x8000,
        ..Default::default()
    };
    {
        let mut g = G::new(s);
        let name = g.name();
        m.q.push(MQ {
            name,
            qtype: 1,
            qclass: 1,
            unicast: false,
        });
        let r = g.record_of(code);
        m.s[0].push(r);
    }
    let mut e = encode(&m, &mut Policy::Random(s), true);
    let pos = e.r[0].clone();
    let mut data = e.bytes[pos.rdata..pos.end].to_vec();
    let mk = Marks {
        names: e.names.iter().filter(|n| **n >= pos.rdata).map(|n| n - pos.rdata).collect(),
        ..Default::default()
    };
    mutate(s, &mut data, &mk);
    data.truncate(65535);
    e.bytes.truncate(pos.rdata);
    e.bytes[pos.rdlen..pos.rdlen + 2].copy_from_slice(&(data.len() as u16).to_be_bytes());
    e.bytes.extend(data);
    e.bytes
}

fn c07_rdata(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = rdata_bytes(s, idx);
    c07_check(&b, ctx)
}

/// Arbitrary record data.
pub fn random_bytes(s: &mut Src, idx: u64) -> Vec<u8> {
    let mut g = G::new(s);
    let mut b = g.u16().to_be_bytes().to_vec();
    b.extend(g.flags().to_be_bytes());
    if idx % 4 == 0 {
        for _ in 0..4 {
            b.extend([0, g.s.below(3) as u8]);
        }
        b.extend(g.blob(300));
    } else {
        let code = type_of(idx / 4);
        b.extend([0, 0, 0, 1, 0, 0, 0, 0, 0]);
        b.extend(code.to_be_bytes());
        b.extend(g.u16().to_be_bytes());
        b.extend([0; 4]);
        let d = g.blob(60);
        b.extend((d.len() as u16).to_be_bytes());
        b.extend(d);
    }
    b
}

fn c07_random(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = random_bytes(s, idx);
    c07_check(&b, ctx)
}

fn c07_wellformed(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let m = G::new(s).any_message();
    let e = encode(&m, &mut Policy::Random(s), true);
    c07_check(&e.bytes, ctx)
}
