//! C13: code point tables. C14: type bitmaps.

use super::wire::*;
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::{hash_bytes, Src};
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::error::Error;

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "every number of every table is converted in both directions (exhaustive), every number of every enumerated field is decoded inside its record and inside generated messages; non-trivial: every number; distinct by table and number, or by message octets",
        phases: vec![
            phase("tables", 256, 256, c13_tables),
            phase("fields", 256, 256, c13_fields),
            phase("message", 160000, 1000000, c13_message),
            phase("data", 120000, 800000, c13_data),
            phase("errors", 64, 64, c13_errors),
        ],
    }
}

/// Kind and number of an error about a code.
pub fn kind(e: &DnsError) -> (&'static str, u64) {
    use DnsError::*;
    match e {
        InvalidClass(n) => ("class", *n as u64),
        InvalidType(n) => ("type", *n as u64),
        InvalidResponseCode(n) => ("response code", *n as u64),
        InvalidAplFamily(n) => ("APL family", *n as u64),
        InvalidCsyncFlag(n) => ("CSYNC flags", *n as u64),
        InvalidSSHFPAlgorithm(n) => ("key algorithm", *n as u64),
        InvalidSSHFPFingerprintType(n) => ("fingerprint type", *n as u64),
        InvalidIpSecKeyGatewayType(n) => ("gateway type", *n as u64),
        InvalidNaptrFlag(n) => ("NAPTR flag", *n as u64),
        InvalidTkeyMode(n) => ("TKEY mode", *n as u64),
        InvalidTkeyError(n) => ("key error", *n as u64),
        InvalidIdentifierTypeError(n) => ("identifier type", *n as u64),
        InvalidTLSACertUsage(n) => ("certificate usage", *n as u64),
        InvalidTLSASelector(n) => ("selector", *n as u64),
        InvalidTLSAMatchingType(n) => ("matching type", *n as u64),
        InvalidSvcbParam(n) => ("SVCB key", *n as u64),
        InvalidDigestType(n) => ("digest type", *n as u64),
        InvalidDnsSecAlgorithm(n) => ("signing algorithm", *n as u64),
        _ => ("no code", 0),
    }
}

fn chain(e: &dyn Error) -> Res {
    let mut n = 0;
    let mut c = e.source();
    while let Some(x) = c {
        n += 1;
        ensure!(n < 64, "the chain of causes of the error {e} does not end");
        c = x.source();
    }
    Ok(())
}

fn known_type(v: u16) -> bool {
    BASE_TYPES.contains(&v) || (HAS_DNSSEC && DNSSEC_TYPES.contains(&v))
}
fn known_qtype(v: u16) -> bool {
    known_type(v) || QUERY_TYPES.contains(&v)
}

/// One entry of a table: `want` is the variant of the number, if it is assigned.
fn entry<T: PartialEq + std::fmt::Debug, N: Into<u64>>(
    table: &str,
    n: u64,
    got: Result<T, DnsError>,
    want: Option<T>,
    back: impl Fn(T) -> N,
    err: &str,
) -> Res {
    match (got, want) {
        (Ok(g), Some(w)) => {
            ensure!(g == w, "{table} {n} is {g:?}, expected {w:?}");
            let b: u64 = back(w).into();
            ensure!(b == n, "{g:?} ({table} {n}) is converted back to {b}");
        }
        (Err(e), None) => {
            chain(&e)?;
            ensure!(kind(&e) == (err, n), "{table} {n} is rejected with {e:?}");
        }
        (Ok(g), None) => return Err(format!("{table} {n} is not assigned, but converted to {g:?}")),
        (Err(e), Some(w)) => return Err(format!("{table} {n} is {w:?}, but rejected with {e:?}")),
    }
    Ok(())
}

fn c13_tables(_s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    for v in (idx * 256..idx * 256 + 256).map(|v| v as u16) {
        let n = v as u64;
        ctx.evals(8);
        ctx.nontrivial(n);
        entry("type", n, RecordType::try_from(v), known_type(v).then(|| rtype(v)), u16::from, "type")?;
        entry("query type", n, QType::try_from(v), known_qtype(v).then(|| qtype(v)), u16::from, "type")?;
        if let Ok(t) = RecordType::try_from(v) {
            ensure!(t as u16 == v, "{t:?} has the number {}", t as u16);
            ensure!(t.to_bytes() == v.to_be_bytes(), "{t:?} is encoded as {}", hex(&t.to_bytes()));
            let q = QType::try_from(v).map_err(|_| format!("{t:?} is not a query type"))?;
            ensure!(u16::from(q) == u16::from(t), "{t:?} and {q:?} have different numbers");
            ensure!(format!("{q:?}") == format!("{t:?}"), "type {v} is {t:?}, query type {v} is {q:?}");
            ensure!(q.to_bytes() == v.to_be_bytes(), "{q:?} is encoded as {}", hex(&q.to_bytes()));
        }
        // the top bit of a class is not part of it
        let c = v & 0x7fff;
        match QClass::try_from(v) {
            Ok(g) => {
                ensure!([1, 2, 3, 4, 254, 255].contains(&c), "query class {v} is converted to {g:?}");
                ensure!(g == qclass(c) && u16::from(g) == c, "query class {v} is {g:?} ({})", u16::from(g));
                ensure!(g.to_bytes() == c.to_be_bytes(), "{g:?} is encoded as {}", hex(&g.to_bytes()));
            }
            Err(e) => {
                chain(&e)?;
                ensure!(![1, 2, 3, 4, 254, 255].contains(&c), "query class {v} is rejected with {e:?}");
                let k = kind(&e);
                ensure!(k.0 == "class" && (k.1 == n || k.1 == c as u64), "query class {v} is rejected with {e:?}");
            }
        }
        let r = RecordClass::from(v);
        ensure!(rclass_code(&r) == c && u16::from(r) == c, "class {v} is {r:?} ({})", u16::from(r));
        ensure!(r == rclass(c, false), "class {v} is {r:?}");
        ensure!(r.to_bytes() == c.to_be_bytes(), "{r:?} is encoded as {}", hex(&r.to_bytes()));
        let r = RecordClass::UdpPayloadSize(v);
        ensure!(u16::from(r) == v, "payload size {v} is converted to {}", u16::from(r));

        let mode = (v >= 1 && v != 65535).then(|| tkey_mode(v));
        entry("TKEY mode", n, tkey::Mode::try_from(v), mode, u16::from, "TKEY mode")?;
        entry("TKEY error", n, tkey::Error::try_from(v), (v <= 21).then(|| tkey_error(v)), u16::from, "key error")?;
        entry("TSIG error", n, tsig::Error::try_from(v), TSIG_ERRORS.contains(&v).then(|| tsig_error(v)), u16::from, "key error")?;
        entry("identifier type", n, dhcid::IdentifierType::try_from(v), (v <= 2).then(|| id_type(v)), u16::from, "identifier type")?;
    }
    let v = idx as u8;
    let n = idx;
    ctx.evals(8);
    entry("key algorithm", n, Algorithm::try_from(v), (v <= 5).then(|| alg(v)), u8::from, "key algorithm")?;
    entry("response code", n, ResponseCode::try_from(v), (v <= 10).then(|| rcode(v)), |c| c as u8, "response code")?;
    entry("certificate usage", n, tlsa::CertUsage::try_from(v), (v <= 3).then(|| cert_usage(v)), u8::from, "certificate usage")?;
    entry("selector", n, tlsa::Selector::try_from(v), (v <= 1).then(|| selector(v)), u8::from, "selector")?;
    entry("matching type", n, tlsa::MatchingType::try_from(v), (v <= 2).then(|| matching(v)), u8::from, "matching type")?;
    let fp = [sshfp::FingerprintType::Reserved, sshfp::FingerprintType::SHA1].get(v as usize).copied();
    entry("fingerprint type", n, sshfp::FingerprintType::try_from(v), fp, u8::from, "fingerprint type")?;
    let up = v.to_ascii_uppercase();
    match naptr::Flag::try_from(v) {
        Ok(f) => {
            ensure!(b"SAUP".contains(&up), "NAPTR flag {v} is {f:?}");
            ensure!(f == naptr_flag(up) && u8::from(f).eq_ignore_ascii_case(&v), "NAPTR flag {v} is {f:?}");
        }
        Err(e) => {
            ensure!(!b"SAUP".contains(&up), "NAPTR flag {v} is rejected");
            ensure!(kind(&e) == ("NAPTR flag", n), "NAPTR flag {v} is rejected with {e:?}");
        }
    }
    let o = OpCode::from(v);
    ensure!(o == opcode(v), "operation code {v} is {o:?}");
    if v < 3 {
        ensure!(o as u8 == v, "{o:?} has the number {}", o as u8);
    }
    if idx == 0 {
        ctx.sample(|| "all 65536 numbers of all tables".into());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// An enumerated field of a record: data with the field at `at`.
pub struct Field {
    pub what: &'static str,
    pub code: u16,
    pub data: Vec<u8>,
    pub at: usize,
    pub width: usize,
    pub valid: fn(u16) -> bool,
    pub err: &'static str,
}

fn svcb_value(k: u16) -> Vec<u8> {
    match k {
        0 => vec![0, 1],
        1 => vec![2, b'h', b'2'],
        3 => vec![1, 187],
        4 => vec![192, 0, 2, 1],
        5 => vec![1, 2, 3],
        6 => vec![0x20; 16],
        65280..=65534 => vec![9, 9],
        _ => vec![],
    }
}

fn svcb_key(k: u16) -> bool {
    k <= 6 || k >= 65280
}
fn dnssec_alg(v: u16) -> bool {
    DNSSEC_ALGS.iter().any(|a| *a as u16 == v)
}
fn digest(v: u16) -> bool {
    DIGEST_TYPES.iter().any(|a| *a as u16 == v)
}

pub fn field(i: usize, v: u16) -> Option<Field> {
    let f = |what, code, data: &[u8], at, width, valid, err| {
        Some(Field {
            what,
            code,
            data: data.to_vec(),
            at,
            width,
            valid,
            err,
        })
    };
    let tkey = [&[0u8][..], &[0, 0, 0, 1, 0, 0, 0, 2, 0, 3, 0, 0, 0, 1, 7, 0, 0]].concat();
    let tsig = [&[0u8][..], &[0, 0, 0, 0, 0, 9, 1, 44, 0, 2, 5, 6, 0, 7, 0, 0, 0, 0]].concat();
    let gw: Vec<u8> = match v {
        0 => vec![b'.', 5],
        1 => vec![1, 2, 3, 4, 5],
        2 => vec![1; 17],
        _ => vec![1, b'a', 0, 5],
    };
    Some(match i {
        0 => return f("SSHFP algorithm", 44, &[0, 1, 7, 7], 0, 1, |v| v <= 5, "key algorithm"),
        1 => return f("SSHFP fingerprint type", 44, &[1, 0, 7, 7], 1, 1, |v| v <= 1, "fingerprint type"),
        2 => return f("TLSA usage", 52, &[0, 0, 0, 8], 0, 1, |v| v <= 3, "certificate usage"),
        3 => return f("TLSA selector", 52, &[0, 0, 0, 8], 1, 1, |v| v <= 1, "selector"),
        4 => return f("TLSA matching type", 52, &[0, 0, 0, 8], 2, 1, |v| v <= 2, "matching type"),
        5 => return f("TKEY mode", 249, &tkey, 9, 2, |v| v >= 1 && v != 65535, "TKEY mode"),
        6 => return f("TKEY error", 249, &tkey, 11, 2, |v| v <= 21, "key error"),
        7 => return f("TSIG error", 250, &tsig, 15, 2, |v| TSIG_ERRORS.contains(&v), "key error"),
        8 => return f("DHCID identifier type", 49, &[0, 0, 1, 9, 9], 0, 2, |v| v <= 2, "identifier type"),
        9 => return f("DHCID digest type", 49, &[0, 1, 1, 9, 9], 2, 1, |v| v == 1, "digest type"),
        10 => return f("IPSECKEY algorithm", 45, &[1, 1, 0, 1, 2, 3, 4, 5], 2, 1, |v| v <= 5, "key algorithm"),
        11 => return f("IPSECKEY gateway type", 45, &[&[1, 0, 2][..], &gw].concat(), 1, 1, |v| v <= 3, "gateway type"),
        12 => return f("HIP algorithm", 55, &[1, 0, 0, 1, 3, 4], 1, 1, |v| v <= 5, "key algorithm"),
        13 => return f("APL family", 42, &[&[0, 0, 8, if v == 2 { 16 } else { 4 }][..], &vec![3; if v == 2 { 16 } else { 4 }]].concat(), 0, 2, |v| v == 1 || v == 2, "APL family"),
        14 => return f("CSYNC flags", 62, &[0, 0, 0, 1, 0, 0, 0, 1, 0x40], 4, 2, |v| v <= 3, "CSYNC flags"),
        15 => {
            let val = svcb_value(v);
            let mut d = vec![0, 1, 0, 0, 0, 0, val.len() as u8];
            d.extend(val);
            return f("SVCB key", 64, &d, 3, 2, svcb_key, "SVCB key");
        }
        16 => return f("mandatory SVCB key", 64, &[0, 1, 0, 0, 0, 0, 2, 0, 0], 7, 2, svcb_key, "SVCB key"),
        17 if HAS_DNSSEC => return f("DS algorithm", 43, &[0, 1, 8, 2, 5], 2, 1, dnssec_alg, "signing algorithm"),
        18 if HAS_DNSSEC => return f("DS digest type", 43, &[0, 1, 8, 2, 5], 3, 1, digest, "digest type"),
        19 if HAS_DNSSEC => return f("CDS algorithm", 59, &[0, 1, 8, 2, 5], 2, 1, dnssec_alg, "signing algorithm"),
        20 if HAS_DNSSEC => return f("CDS digest type", 59, &[0, 1, 8, 2, 5], 3, 1, digest, "digest type"),
        21 if HAS_DNSSEC => return f("DNSKEY algorithm", 48, &[1, 0, 3, 8, 5], 3, 1, dnssec_alg, "signing algorithm"),
        22 if HAS_DNSSEC => return f("CDNSKEY algorithm", 60, &[1, 0, 3, 8, 5], 3, 1, dnssec_alg, "signing algorithm"),
        23 if HAS_DNSSEC => {
            let d = [&[0, 1, 8, 2][..], &[0; 14], &[0, 5]].concat();
            return f("RRSIG type covered", 46, &d, 0, 2, known_type, "type");
        }
        24 if HAS_DNSSEC => {
            let d = [&[0, 1, 8, 2][..], &[0; 14], &[0, 5]].concat();
            return f("RRSIG algorithm", 46, &d, 2, 1, dnssec_alg, "signing algorithm");
        }
        _ => return None,
    })
}
const FIELDS: usize = 25;

fn field_data(f: &Field, v: u16) -> Vec<u8> {
    let mut d = f.data.clone();
    if f.width == 1 {
        d[f.at] = v as u8;
    } else {
        d[f.at..f.at + 2].copy_from_slice(&v.to_be_bytes());
    }
    d
}

fn check_field(f: &Field, v: u16, got: Result<RecordData, DnsError>) -> Res {
    match got {
        Ok(d) => {
            ensure!((f.valid)(v), "{} {v} is not assigned, but accepted", f.what);
            ensure!(rd_code(&d) == f.code, "{} {v}: data of type {} is read as {}", f.what, f.code, rd_code(&d));
            let want = field_data(f, v);
            ensure!(d.to_bytes() == want, "{} {v} is encoded again as {}, expected {}", f.what, hex(&d.to_bytes()), hex(&want));
        }
        Err(e) => {
            chain(&e)?;
            ensure!(!(f.valid)(v), "{} {v} is assigned, but rejected with {e:?}", f.what);
            ensure!(kind(&e) == (f.err, v as u64), "{} {v} is rejected with {e:?}", f.what);
        }
    }
    Ok(())
}

fn c13_fields(_s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    for i in 0..FIELDS {
        let wide = match field(i, 0) {
            Some(f) => f.width == 2,
            None => continue,
        };
        let range = if wide { idx * 256..idx * 256 + 256 } else { idx..idx + 1 };
        for v in range.map(|v| v as u16) {
            let f = field(i, v).unwrap();
            let d = field_data(&f, v);
            ctx.eval();
            ctx.nontrivial((i as u64 + 1) << 32 | v as u64);
            let mut buf = DnsBuffer::from(&d[..]);
            check_field(&f, v, RecordData::from(rtype(f.code), &mut buf))?;
        }
    }
    // flags without a meaning are skipped
    let other = (idx * 7 + 3) as u8;
    let d = [0, 1, 0, 2, 3, idx as u8, b'u', other, 0, 0, 0];
    let known: Vec<u8> = [idx as u8, b'u', other].iter().map(|c| c.to_ascii_uppercase()).filter(|c| b"SAUP".contains(c)).collect();
    let n = Naptr::try_from(&mut DnsBuffer::from(&d[..])).map_err(|e| format!("NAPTR flags {} are rejected: {e:?}", hex(&d[5..8])))?;
    let want = [&[0, 1, 0, 2, known.len() as u8][..], &known, &[0, 0, 0]].concat();
    ensure!(n.to_bytes() == want, "NAPTR flags {} are read as {}", hex(&d[5..8]), hex(&n.to_bytes()));
    // header codes
    let mut b = vec![0u8; 12];
    b[2] = 0x80;
    b[3] = idx as u8;
    let rc = idx as u8 & 15;
    ctx.eval();
    match Header::try_from(&mut DnsBuffer::from(&b[..])) {
        Ok(h) => {
            ensure!(rc <= 10, "response code {rc} is accepted");
            ensure!(h.response_code() == rcode(rc), "response code {rc} is read as {:?}", h.response_code());
        }
        Err(e) => {
            ensure!(rc > 10, "response code {rc} is rejected");
            ensure!(kind(&e) == ("response code", rc as u64), "response code {rc} is rejected with {e:?}");
        }
    }
    b[3] = 0;
    b[2] = idx as u8;
    let op = (idx as u8 >> 3) & 15;
    let h = Header::try_from(&mut DnsBuffer::from(&b[..])).map_err(|e| format!("operation code {op} is rejected: {e:?}"))?;
    ensure!(h.opcode() == opcode(op), "operation code {op} is read as {:?}", h.opcode());
    Ok(())
}

/// One code of a generated message is replaced by another number.
fn c13_message(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut m = g.any_message();
    let kind_of = g.s.below(6);
    let v = g.u16();
    let sec = g.s.below(3) as usize;
    let at = g.s.below(m.s[sec].len() as u64 + 1) as usize;
    let fi = g.s.below(FIELDS as u64) as usize;
    let v = if g.s.chance(1, 3) { v % 300 } else { v };
    let f = field(fi, v).filter(|f| f.width == 2 || v < 256).or_else(|| field(fi % 17, v & 0xff)).unwrap();
    let v = if f.width == 1 || field(fi, v).is_none() { v & 0xff } else { v };
    let f = if kind_of < 4 { f } else { Field { data: vec![1, 2, 3], ..f } };
    let data = if kind_of < 4 { field_data(&f, v) } else { f.data.clone() };
    let r = g.record_of(10);
    m.s[sec].insert(
        at,
        MRec {
            rd: MR::Null(data),
            class: if r.class > 4 { 1 } else { r.class },
            ..r
        },
    );
    let nth = (0..sec).map(|i| m.s[i].len()).sum::<usize>() + at;
    if m.q.is_empty() {
        m.q.push(MQ {
            name: vec![b"a".to_vec()],
            qtype: 1,
            qclass: 1,
            unicast: false,
        });
    }
    let qi = g.s.below(m.q.len() as u64) as usize;
    let e = encode(&m, &mut Policy::Random(s), true);
    let mut b = e.bytes.clone();
    let fixed = e.r[nth].fixed;
    ctx.eval();
    ctx.nontrivial_bytes(&b);
    match kind_of {
        0..=3 => {
            b[fixed..fixed + 2].copy_from_slice(&f.code.to_be_bytes());
            ctx.class(f.what);
            let got = decode(&b).map(|p| match sec {
                0 => p.answers()[at].data().clone(),
                1 => p.authorities()[at].data().clone(),
                _ => p.additionals()[at].data().clone(),
            });
            check_field(&f, v, got).map_err(|e| format!("in a message: {e}"))
        }
        4 => {
            // type of a record
            b[fixed..fixed + 2].copy_from_slice(&v.to_be_bytes());
            ctx.class("type of a record");
            match decode(&b) {
                Err(e) if !known_type(v) => {
                    ensure!(kind(&e) == ("type", v as u64), "record of type {v} is rejected with {e:?}");
                    Ok(())
                }
                Ok(_) if !known_type(v) => Err(format!("record of type {v} is accepted")),
                _ => Ok(()),
            }
        }
        _ => {
            // type of a question
            let at = e.q[qi].1;
            b[at - 4..at - 2].copy_from_slice(&v.to_be_bytes());
            ctx.class("type of a question");
            match decode(&b) {
                Ok(p) => {
                    ensure!(known_qtype(v), "question of type {v} is accepted");
                    ensure!(*p.questions()[qi].query_type() == qtype(v), "question type {v} is read as {:?}", p.questions()[qi].query_type());
                }
                Err(e) => {
                    ensure!(!known_qtype(v), "question of type {v} is rejected with {e:?}");
                    ensure!(kind(&e) == ("type", v as u64), "question of type {v} is rejected with {e:?}");
                }
            }
            let c = v & 0x7fff;
            b = e.bytes.clone();
            b[at - 2..at].copy_from_slice(&v.to_be_bytes());
            match decode(&b) {
                Ok(p) => {
                    ensure!([1, 2, 3, 4, 254, 255].contains(&c), "question of class {v} is accepted");
                    ensure!(*p.questions()[qi].class() == qclass(c), "question class {v} is read as {:?}", p.questions()[qi].class());
                }
                Err(e) => {
                    ensure!(![1, 2, 3, 4, 254, 255].contains(&c), "question of class {v} is rejected with {e:?}");
                    let k = kind(&e);
                    ensure!(k.0 == "class" && (k.1 == v as u64 || k.1 == c as u64), "question of class {v} is rejected with {e:?}");
                }
            }
            Ok(())
        }
    }
}

/// Data decoded for a type is of that type, and says so.
fn c13_data(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let r = G::new(s).record_of(code);
    let b = rdata_plain(&r.rd, true);
    ctx.eval();
    ctx.class(type_name(code));
    ctx.nontrivial(hash_bytes(&b) ^ code as u64);
    let mut buf = DnsBuffer::from(&b[..]);
    let d = RecordData::from(rtype(code), &mut buf).map_err(|e| format!("{} data is rejected: {e:?}", type_name(code)))?;
    ensure!(rd_code(&d) == code, "data of type {code} is read as type {}", rd_code(&d));
    let rec = build_r(&MRec { rd: r.rd.clone(), ..r.clone() });
    ensure!(rtype_code(rec.record_type()) == code, "record of type {code} says {:?}", rec.record_type());
    macro_rules! own {
        ($($c:literal => $v:ident),* ; $($dc:literal => $dv:ident),*) => {
            match d {
                $(RecordData::$v(x) => (u16::from(x.record_type()), rd_code(&x.into_record_data())),)*
                $(#[cfg(feature = "dnssec")] RecordData::$dv(x) => (u16::from(x.record_type()), rd_code(&x.into_record_data())),)*
            }
        };
    }
    let (t, v) = own!(1 => A, 2 => NS, 5 => CNAME, 6 => SOA, 10 => NULL, 11 => WKS, 12 => PTR, 13 => HINFO, 14 => MINFO, 15 => MX,
        16 => TXT, 28 => AAAA, 29 => LOC, 33 => SRV, 35 => NAPTR, 41 => OPT, 42 => APL, 44 => SSHFP, 45 => IPSECKEY,
        49 => DHCID, 52 => TLSA, 55 => HIP, 61 => OPENPGPKEY, 62 => CSYNC, 64 => SVCB, 108 => EUI48, 109 => EUI64,
        249 => TKEY, 250 => TSIG, 256 => URI, 257 => CAA;
        43 => DS, 46 => RRSIG, 47 => NSEC, 48 => DNSKEY, 59 => CDS, 60 => CDNSKEY);
    // the child variants share their data types with DS and DNSKEY
    let want = match code {
        59 => 43,
        60 => 48,
        c => c,
    };
    ensure!(t == want && v == want, "data of type {code} says it has type {t} and becomes type {v}");
    Ok(())
}

fn c13_errors(_s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    use DnsError::*;
    let n = (idx * 1031) as u16;
    let time = std::time::UNIX_EPOCH.duration_since(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1 + idx)).unwrap_err();
    let all = vec![
        InvalidClass(n),
        InvalidType(n),
        InvalidResponseCode(n as u8),
        InvalidPacketData,
        LengthViolation,
        UnresolveableCompressionPointer,
        InvalidAplFamily(n),
        InvalidCsyncFlag(n),
        InvalidSSHFPAlgorithm(n as u8),
        InvalidSSHFPFingerprintType(n as u8),
        InvalidIpSecKeyGatewayType(n as u8),
        InvalidNaptrFlag(n as u8),
        InvalidTkeyMode(n),
        InvalidTkeyError(n),
        InvalidIdentifierTypeError(n),
        InvalidTLSACertUsage(n as u8),
        InvalidTLSASelector(n as u8),
        InvalidTLSAMatchingType(n as u8),
        InvalidSvcbParam(n),
        InvalidDigestType(n as u8),
        InvalidDnsSecAlgorithm(n as u8),
        InvalidDnsSecSignatureTimespan(time),
        DnsSecVerificationError("x".repeat(idx as usize)),
        DnsSecSigningError("y".repeat(idx as usize)),
    ];
    for e in &all {
        ctx.eval();
        chain(e)?;
        ensure!(!e.to_string().is_empty(), "{e:?} prints as nothing");
        let k = kind(e);
        if k.0 != "no code" {
            ensure!(e.to_string().contains(&k.1.to_string()), "{e:?} prints as {e}, without the number");
        }
    }
    ctx.nontrivial(idx);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C14

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "sets of types (all singletons and pairs, sets around octet and window boundaries, random subsets) are encoded in NSEC and CSYNC records, plain and compressed, and compared with an independent bitmap; legal and malformed window encodings are decoded; non-trivial: at least two types, or a malformed window; distinct by set or octets",
        phases: vec![
            phase("small", 41 * 41, 41 * 41, c14_small),
            phase("sets", 320000, 1000000, c14_sets),
            phase("legal", 320000, 1000000, c14_legal),
            phase("malformed", 320000, 1000000, c14_malformed),
            phase("message", 120000, 400000, c14_message),
        ],
    }
}

fn csync(types: &BTreeSet<u16>) -> MR {
    MR::Csync {
        serial: 66,
        flags: 3,
        types: types.clone(),
    }
}

fn nsec(types: &BTreeSet<u16>) -> MR {
    MR::Nsec {
        next: vec![b"host".to_vec(), b"example".to_vec()],
        types: types.clone(),
    }
}

/// Legal windows, written here from RFC 4034 4.1.2 (not with the encoder of the model).
fn windows(types: &BTreeSet<u16>) -> Vec<(u8, Vec<u8>)> {
    let mut w: Vec<(u8, Vec<u8>)> = Vec::new();
    for t in types {
        let (hi, lo) = ((t >> 8) as u8, (t & 255) as usize);
        if w.last().map(|x| x.0) != Some(hi) {
            w.push((hi, Vec::new()));
        }
        let map = &mut w.last_mut().unwrap().1;
        map.resize((lo >> 3) + 1, 0);
        map[lo >> 3] |= 1 << (7 - (lo & 7));
    }
    w
}

fn windows_bytes(w: &[(u8, Vec<u8>)]) -> Vec<u8> {
    w.iter().flat_map(|(n, m)| [&[*n, m.len() as u8][..], m].concat()).collect()
}

fn read_types(d: &RecordData) -> BTreeSet<u16> {
    match d {
        RecordData::CSYNC(c) => c.types.iter().map(rtype_code).collect(),
        #[cfg(feature = "dnssec")]
        RecordData::NSEC(c) => c.types.iter().map(rtype_code).collect(),
        _ => panic!("unexpected data"),
    }
}

fn holders(types: &BTreeSet<u16>) -> Vec<(MR, Vec<u8>)> {
    let mut v = vec![(csync(types), vec![0, 0, 0, 66, 0, 3])];
    if HAS_DNSSEC {
        v.push((nsec(types), b"\x04host\x07example\x00".to_vec()));
    }
    v
}

fn c14_check(types: &BTreeSet<u16>, ctx: &mut Ctx) -> Res {
    let map = windows_bytes(&windows(types));
    for (m, head) in holders(types) {
        ctx.eval();
        let what = type_name(m.code());
        let want = [&head[..], &map].concat();
        let d = build_rd(&m);
        let got = d.to_bytes();
        ensure!(got == want, "{what} bitmap of {types:?} is {}, expected {}", hex(&got[head.len().min(got.len())..]), hex(&map));
        ensure!(d.byte_size() == got.len(), "{what} bitmap of {types:?}: size {} but {} octets", d.byte_size(), got.len());
        let mut buf = DnsBuffer::from(&want[..]);
        let back = RecordData::from(rtype(m.code()), &mut buf).map_err(|e| format!("{what} bitmap {} is rejected: {e:?}", hex(&map)))?;
        ensure!(read_types(&back) == *types, "{what} bitmap {} is read as {:?}, expected {types:?}", hex(&map), read_types(&back));
        ensure!(back == d, "{what} data with the bitmap of {types:?} changes in a round trip");
    }
    if types.len() > 1 {
        ctx.nontrivial_bytes(&map);
    }
    Ok(())
}

fn universe() -> Vec<u16> {
    let mut u = BASE_TYPES.to_vec();
    if HAS_DNSSEC {
        u.extend(DNSSEC_TYPES);
    }
    u.sort();
    u
}

/// The empty set, all singletons and pairs and their complements.
fn c14_small(_s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let u = universe();
    let (i, j) = ((idx / 41) as usize, (idx % 41) as usize);
    let mut t = BTreeSet::new();
    if i < u.len() {
        t.insert(u[i]);
    }
    if j < u.len() {
        t.insert(u[j]);
    }
    c14_check(&t, ctx)?;
    let c: BTreeSet<u16> = u.iter().copied().filter(|x| !t.contains(x)).collect();
    c14_check(&c, ctx)?;
    // everything up to or from one type
    if i < u.len() && j == 0 {
        c14_check(&u[..=i].iter().copied().collect(), ctx)?;
        c14_check(&u[i..].iter().copied().collect(), ctx)?;
    }
    Ok(())
}

fn some_types(s: &mut Src) -> BTreeSet<u16> {
    let u = universe();
    let p = s.below(5);
    u.iter()
        .copied()
        .filter(|_| match p {
            0 => s.chance(1, 2),
            1 => s.chance(1, 6),
            2 => s.chance(5, 6),
            3 => s.chance(1, 20),
            _ => s.chance(1, 3),
        })
        .collect()
}

fn c14_sets(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let t = some_types(s);
    ctx.sample(|| format!("{t:?}"));
    c14_check(&t, ctx)
}

/// Legal encodings by others: any known types, trailing zero octets within a window.
fn c14_legal(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let t = some_types(s);
    let mut w = windows(&t);
    let pad = s.bool();
    for (_, m) in w.iter_mut() {
        if pad {
            let room = 32 - m.len() as u64;
            let n = if s.bool() { room } else { s.below(room + 1) };
            m.resize(m.len() + n as usize, 0);
        }
    }
    let map = windows_bytes(&w);
    ctx.nontrivial_bytes(&map);
    ctx.sample(|| format!("bitmap {}", hex(&map)));
    for (m, head) in holders(&t) {
        ctx.eval();
        let what = type_name(m.code());
        let b = [&head[..], &map].concat();
        let mut buf = DnsBuffer::from(&b[..]);
        match RecordData::from(rtype(m.code()), &mut buf) {
            Ok(d) => {
                ensure!(read_types(&d) == t, "{what} bitmap {} is read as {:?}, expected {t:?}", hex(&map), read_types(&d));
                ensure!(d.to_bytes() == [&head[..], &windows_bytes(&windows(&t))].concat(), "{what} bitmap {} is written again as {}", hex(&map), hex(&d.to_bytes()));
            }
            // superfluous zero octets need not be accepted
            Err(e) if !pad => return Err(format!("{what} bitmap {} is rejected: {e:?}", hex(&map))),
            Err(_) => {}
        }
    }
    Ok(())
}

/// Windows that are cut off, longer than 32 octets or contain unassigned types.
fn c14_malformed(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut t = some_types(s);
    if t.is_empty() {
        t.insert(*s.pick(&universe()));
    }
    let mut w = windows(&t);
    let k = s.below(w.len() as u64) as usize;
    let kind = s.below(4);
    let map = match kind {
        0 => {
            // the bitmap ends inside of a window
            let b = windows_bytes(&w);
            let full: Vec<usize> = w.iter().scan(0, |a, x| { *a += 2 + x.1.len(); Some(*a) }).collect();
            let mut n = s.below(b.len() as u64) as usize;
            while n == 0 || full.contains(&n) {
                n += 1;
            }
            if n >= b.len() {
                n = b.len() - 1;
            }
            b[..n].to_vec()
        }
        1 => {
            // more than 32 octets, all there
            let n = 33 + s.below(223) as usize;
            w[k].1.resize(n, 0);
            windows_bytes(&w)
        }
        2 => {
            // the last window claims more than there is
            let last = w.len() - 1;
            let len = w[last].1.len();
            let mut b = windows_bytes(&w);
            let at = b.len() - len - 1;
            b[at] = (len as u64 + 1 + s.below(255 - len as u64)) as u8;
            b
        }
        _ => {
            // a type that is not assigned
            let mut v = s.below(65536) as u16;
            if s.bool() {
                v %= 512;
            }
            while known_type(v) {
                v = v.wrapping_add(1);
            }
            t.insert(v);
            windows_bytes(&windows(&t))
        }
    };
    ctx.nontrivial_bytes(&map);
    ctx.class(["cut off", "longer than 32 octets", "claims too much", "unassigned type"][kind as usize]);
    for (m, head) in holders(&t.iter().copied().filter(|x| known_type(*x)).collect()) {
        ctx.eval();
        let b = [&head[..], &map].concat();
        let mut buf = DnsBuffer::from(&b[..]);
        let got = RecordData::from(rtype(m.code()), &mut buf);
        match got {
            Err(_) => {}
            Ok(d) if kind == 3 => {
                // accepting types without a name is fine only if nothing is invented
                ensure!(read_types(&d).is_subset(&t), "{} bitmap {} is read as {:?}", type_name(m.code()), hex(&map), read_types(&d));
            }
            Ok(d) => {
                return Err(format!("malformed {} bitmap {} is accepted as {:?}", type_name(m.code()), hex(&map), read_types(&d)));
            }
        }
    }
    Ok(())
}

/// Bitmaps inside of messages, plain and compressed.
fn c14_message(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    g.types = Some(if HAS_DNSSEC { vec![47, 62, 2, 15] } else { vec![62, 2, 15] });
    let mut m = g.any_message();
    for sec in 0..3 {
        for r in 0..m.s[sec].len() {
            let t = some_types(g.s);
            match &mut m.s[sec][r].rd {
                MR::Csync { types, .. } | MR::Nsec { types, .. } => *types = t,
                _ => {}
            }
        }
    }
    let p = build(&m, 0);
    for (form, b) in [("plain", p.to_bytes()), ("compressed", p.to_bytes_compressed())] {
        ctx.eval();
        let d = decode(&b).map_err(|e| format!("{form} message with bitmaps is rejected: {e:?}"))?;
        check_packet(&d, &m).map_err(|e| format!("{form}: {e}"))?;
        // the octets of the last bitmap end the message
        if let Some(MR::Csync { types, .. } | MR::Nsec { types, .. }) = m.records().last().map(|r| &r.rd) {
            let map = windows_bytes(&windows(types));
            ensure!(b.ends_with(&map), "{form}: bitmap of {types:?} is encoded differently: {}", hex(&b[b.len().saturating_sub(map.len() + 8)..]));
        }
        if m.records().count() > 0 {
            ctx.nontrivial_bytes(&b);
        }
    }
    Ok(())
}
