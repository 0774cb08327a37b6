//! Between the reference model and the library: building values through the public API and
//! comparing library values with the model field by field.

use crate::ensure;
use crate::engine::Res;
use crate::model::*;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::{TryFrom, TryInto};
use std::net::{Ipv4Addr, Ipv6Addr};

pub fn fq(n: &Name) -> FQDN {
    FQDN::from(n.clone())
}

pub fn unfq(n: &FQDN) -> Name {
    n.iter().map(|l| l.to_vec()).collect()
}

macro_rules! type_table {
    ($($code:literal $v:ident),* ; $($dcode:literal $dv:ident),* ; $($qcode:literal $qv:ident),*) => {
        pub fn rtype(code: u16) -> RecordType {
            match code {
                $($code => RecordType::$v,)*
                $(#[cfg(feature = "dnssec")] $dcode => RecordType::$dv,)*
                _ => panic!("no type {code}"),
            }
        }
        pub fn rtype_code(t: &RecordType) -> u16 {
            match t {
                $(RecordType::$v => $code,)*
                $(#[cfg(feature = "dnssec")] RecordType::$dv => $dcode,)*
            }
        }
        pub fn qtype(code: u16) -> QType {
            match code {
                $($code => QType::$v,)*
                $(#[cfg(feature = "dnssec")] $dcode => QType::$dv,)*
                $($qcode => QType::$qv,)*
                _ => panic!("no type {code}"),
            }
        }
        pub fn qtype_code(t: &QType) -> u16 {
            match t {
                $(QType::$v => $code,)*
                $(#[cfg(feature = "dnssec")] QType::$dv => $dcode,)*
                $(QType::$qv => $qcode,)*
            }
        }
        /// Type of the variant a value is stored in.
        pub fn rd_code(d: &RecordData) -> u16 {
            match d {
                $(RecordData::$v(_) => $code,)*
                $(#[cfg(feature = "dnssec")] RecordData::$dv(_) => $dcode,)*
            }
        }
    };
}

type_table!(1 A, 2 NS, 5 CNAME, 6 SOA, 10 NULL, 11 WKS, 12 PTR, 13 HINFO, 14 MINFO, 15 MX, 16 TXT, 28 AAAA, 29 LOC,
    33 SRV, 35 NAPTR, 41 OPT, 42 APL, 44 SSHFP, 45 IPSECKEY, 49 DHCID, 52 TLSA, 55 HIP, 61 OPENPGPKEY, 62 CSYNC,
    64 SVCB, 108 EUI48, 109 EUI64, 249 TKEY, 250 TSIG, 256 URI, 257 CAA;
    43 DS, 46 RRSIG, 47 NSEC, 48 DNSKEY, 59 CDS, 60 CDNSKEY;
    252 AXFR, 253 MAILB, 254 MAILA, 255 ANY);

pub fn qclass(c: u16) -> QClass {
    match c {
        1 => QClass::IN,
        2 => QClass::CS,
        3 => QClass::CH,
        4 => QClass::HS,
        254 => QClass::NONE,
        255 => QClass::ANY,
        _ => panic!("no class {c}"),
    }
}

pub fn qclass_code(c: &QClass) -> u16 {
    match c {
        QClass::IN => 1,
        QClass::CS => 2,
        QClass::CH => 3,
        QClass::HS => 4,
        QClass::NONE => 254,
        QClass::ANY => 255,
    }
}

pub fn rclass(c: u16, opt: bool) -> RecordClass {
    match c {
        _ if opt => RecordClass::UdpPayloadSize(c),
        1 => RecordClass::IN,
        2 => RecordClass::CS,
        3 => RecordClass::CH,
        4 => RecordClass::HS,
        n => RecordClass::UdpPayloadSize(n),
    }
}

pub fn rclass_code(c: &RecordClass) -> u16 {
    match c {
        RecordClass::IN => 1,
        RecordClass::CS => 2,
        RecordClass::CH => 3,
        RecordClass::HS => 4,
        RecordClass::UdpPayloadSize(n) => *n,
    }
}

pub fn alg(a: u8) -> Algorithm {
    match a {
        0 => Algorithm::Reserved,
        1 => Algorithm::RSA,
        2 => Algorithm::DSA,
        3 => Algorithm::ECDSA,
        4 => Algorithm::Ed25519,
        5 => Algorithm::Ed448,
        _ => panic!(),
    }
}

pub fn types(t: &BTreeSet<u16>) -> BTreeSet<RecordType> {
    t.iter().map(|c| rtype(*c)).collect()
}

fn parse<T>(b: &[u8]) -> T
where
    T: for<'b, 'c> TryFrom<&'b mut DnsBuffer<'c>>,
{
    let mut buf = DnsBuffer::from(b);
    let r = T::try_from(&mut buf).ok();
    match r {
        Some(v) => v,
        None => panic!("{} rejects its own wire format {}", std::any::type_name::<T>(), hex(b)),
    }
}

pub fn tkey_mode(m: u16) -> tkey::Mode {
    match m {
        1 => tkey::Mode::ServerAssignment,
        2 => tkey::Mode::DiffieHellmanExchange,
        3 => tkey::Mode::GssApiNegotiation,
        4 => tkey::Mode::ResolverAssignment,
        5 => tkey::Mode::KeyDeletion,
        n => tkey::Mode::Available(n),
    }
}

pub fn tkey_error(e: u16) -> tkey::Error {
    match e {
        0 => tkey::Error::None,
        1..=15 => tkey::Error::NonExtendedRcode(e),
        16 => tkey::Error::BadSig,
        17 => tkey::Error::BadKey,
        18 => tkey::Error::BadTime,
        19 => tkey::Error::BadMode,
        20 => tkey::Error::BadName,
        21 => tkey::Error::BadAlg,
        _ => panic!(),
    }
}

pub fn tsig_error(e: u16) -> tsig::Error {
    match e {
        0 => tsig::Error::None,
        16 => tsig::Error::BadSig,
        17 => tsig::Error::BadKey,
        18 => tsig::Error::BadTime,
        22 => tsig::Error::BadTrunc,
        _ => panic!(),
    }
}

pub fn cert_usage(c: u8) -> tlsa::CertUsage {
    use tlsa::CertUsage::*;
    match c {
        0 => Ca,
        1 => ServiceCertificateConstraint,
        2 => TrustAnchor,
        3 => DomainIssuedCertificate,
        _ => panic!(),
    }
}

pub fn selector(c: u8) -> tlsa::Selector {
    match c {
        0 => tlsa::Selector::Full,
        1 => tlsa::Selector::SubjectPublicKeyInfo,
        _ => panic!(),
    }
}

pub fn matching(c: u8) -> tlsa::MatchingType {
    match c {
        0 => tlsa::MatchingType::ExactMatch,
        1 => tlsa::MatchingType::SHA256,
        2 => tlsa::MatchingType::SHA512,
        _ => panic!(),
    }
}

pub fn id_type(c: u16) -> dhcid::IdentifierType {
    match c {
        0 => dhcid::IdentifierType::ChaddrOfDhcpRequest,
        1 => dhcid::IdentifierType::ClientIdentifierOption,
        2 => dhcid::IdentifierType::DUID,
        _ => panic!(),
    }
}

pub fn naptr_flag(c: u8) -> naptr::Flag {
    match c {
        b'S' => naptr::Flag::S,
        b'A' => naptr::Flag::A,
        b'U' => naptr::Flag::U,
        b'P' => naptr::Flag::P,
        _ => panic!(),
    }
}

fn v4(a: &[u8; 4]) -> Ipv4Addr {
    Ipv4Addr::from(*a)
}
fn v6(a: &[u8; 16]) -> Ipv6Addr {
    Ipv6Addr::from(*a)
}

#[cfg(feature = "dnssec")]
pub fn set<T, U>(v: T) -> U
where
    T: TryInto<U>,
{
    match v.try_into() {
        Ok(u) => u,
        Err(_) => panic!("conversion of an assigned number failed"),
    }
}

/// Record data built from its parts.
pub fn build_rd(r: &MR) -> RecordData {
    match r {
        MR::A(a) => A::new(v4(a)).into_record_data(),
        MR::Ns(n) => Ns::new(fq(n)).into_record_data(),
        MR::Cname(n) => Cname::new(fq(n)).into_record_data(),
        MR::Soa { mname, rname, nums } => {
            Soa::new(fq(mname), fq(rname), nums[0], nums[1], nums[2], nums[3], nums[4]).into_record_data()
        }
        MR::Null(d) => Null::new(d.clone()).into_record_data(),
        MR::Wks { addr, proto, bitmap } => Wks::new(v4(addr), *proto, bitmap.clone()).into_record_data(),
        MR::Ptr(n) => Ptr::new(fq(n)).into_record_data(),
        MR::Hinfo(c, o) => Hinfo::new(c.clone(), o.clone()).into_record_data(),
        MR::Minfo(a, b) => Minfo::new(fq(a), fq(b)).into_record_data(),
        MR::Mx(p, n) => Mx::new(*p, fq(n)).into_record_data(),
        MR::Txt(t) => Txt::new(t.clone()).into_record_data(),
        MR::Aaaa(a) => Aaaa::new(v6(a)).into_record_data(),
        MR::Loc { b, n } => Loc {
            version: b[0],
            size: b[1],
            horiz_pre: b[2],
            vert_pre: b[3],
            latitude: n[0],
            longitude: n[1],
            altitude: n[2],
        }
        .into_record_data(),
        MR::Srv(p, w, o, n) => Srv::new(*p, *w, *o, fq(n)).into_record_data(),
        MR::Naptr { order, pref, flags, service, regexp, repl } => Naptr::new(
            *order,
            *pref,
            flags.iter().map(|f| naptr_flag(*f)).collect(),
            service.clone(),
            regexp.clone(),
            fq(repl),
        )
        .into_record_data(),
        MR::Opt(m) => Opt(m.iter().map(|(k, v)| (*k, v.clone())).collect()).into_record_data(),
        // The address part can not be named outside of the library
        MR::Apl { prefix, neg, .. } => {
            let p: Apl = parse(&rdata_plain(r, true));
            Apl::new(*prefix, *neg, p.afd_part).into_record_data()
        }
        MR::Sshfp(a, t, f) => Sshfp::new(
            alg(*a),
            if *t == 0 { sshfp::FingerprintType::Reserved } else { sshfp::FingerprintType::SHA1 },
            f.clone(),
        )
        .into_record_data(),
        MR::IpSecKey { prec, alg: a, gw, key } => IpSecKey {
            precedence: *prec,
            algorithm: alg(*a),
            gateway: match gw {
                Gw::None => ipseckey::Gateway::None,
                Gw::V4(a) => ipseckey::Gateway::IpV4(v4(a)),
                Gw::V6(a) => ipseckey::Gateway::IpV6(v6(a)),
                Gw::Name(n) => ipseckey::Gateway::Domain(fq(n)),
            },
            public_key: key.clone(),
        }
        .into_record_data(),
        MR::Dhcid(id, d) => Dhcid {
            identifier_code: id_type(*id),
            digest: d.clone(),
        }
        .into_record_data(),
        MR::Tlsa(u, s, m, d) => Tlsa::new(cert_usage(*u), selector(*s), matching(*m), d.clone()).into_record_data(),
        MR::Hip { alg: a, hit, key, rvs } => Hip {
            public_key_algorithm: alg(*a),
            hit: hit.clone(),
            public_key: key.clone(),
            rendevous_server: if rvs.is_empty() { None } else { Some(rvs.iter().map(fq).collect()) },
        }
        .into_record_data(),
        MR::OpenPgp(d) => OpenPgpKey(d.clone()).into_record_data(),
        MR::Csync { serial, flags, types: t } => {
            let mut c = Csync::default();
            c.soa_serial = *serial;
            c.flags.set_immediate(flags & 1 != 0);
            c.flags.set_soa_minimum(flags & 2 != 0);
            c.types = types(t);
            c.into_record_data()
        }
        MR::Svcb { prio, target, params } => {
            // Parameters can not be named outside of the library; each is read from its encoding,
            // and they are put together in descending order
            let mut s: Svcb = parse(&[0, 0, 0]);
            s.priority = *prio;
            s.target_name = fq(target);
            for p in params.iter().rev() {
                let enc = p.encode();
                let mut b = DnsBuffer::from(&enc[..]);
                match (&mut b).try_into() {
                    Ok(v) => {
                        s.params.insert(v);
                    }
                    Err(e) => {
                        let e: DnsError = e;
                        panic!("parameter {p:?} is rejected: {e:?}")
                    }
                }
            }
            s.into_record_data()
        }
        MR::Eui48(e) => parse::<Eui48>(e).into_record_data(),
        MR::Eui64(e) => parse::<Eui64>(e).into_record_data(),
        MR::Tkey { alg, inception, expiration, mode, error, key, other } => Tkey {
            algorithm: fq(alg),
            inception: *inception,
            expiration: *expiration,
            mode: tkey_mode(*mode),
            error: tkey_error(*error),
            key_data: key.clone(),
            other_data: other.clone(),
        }
        .into_record_data(),
        MR::Tsig { alg, time, fudge, mac, id, error, other } => Tsig {
            algorithm: fq(alg),
            time_signed: *time,
            fudge: *fudge,
            mac: mac.clone(),
            original_id: *id,
            error: tsig_error(*error),
            other_data: other.clone(),
        }
        .into_record_data(),
        MR::Uri(p, w, t) => Uri::new(*p, *w, t.clone()).into_record_data(),
        MR::Caa { critical, tag, value } => Caa::new(*critical, tag.clone(), value.clone()).into_record_data(),
        #[cfg(feature = "dnssec")]
        MR::Ds { child, .. } => {
            let d = build_ds(r);
            if *child {
                RecordData::CDS(d)
            } else {
                d.into_record_data()
            }
        }
        #[cfg(feature = "dnssec")]
        MR::DnsKey { child, .. } => {
            let d = build_key(r);
            if *child {
                RecordData::CDNSKEY(d)
            } else {
                d.into_record_data()
            }
        }
        #[cfg(feature = "dnssec")]
        MR::Rrsig { covered, alg, labels, ttl, exp, inc, tag, signer, sig } => Rrsig::new(
            rtype(*covered),
            set(*alg),
            *labels,
            *ttl,
            *exp,
            *inc,
            *tag,
            fq(signer),
            sig.clone(),
        )
        .into_record_data(),
        #[cfg(feature = "dnssec")]
        MR::Nsec { next, types: t } => Nsec::with_types(fq(next), types(t)).into_record_data(),
        #[cfg(not(feature = "dnssec"))]
        _ => panic!("not in this configuration"),
    }
}

#[cfg(feature = "dnssec")]
pub fn build_ds(r: &MR) -> Ds {
    match r {
        MR::Ds { tag, alg, digest_type, digest, .. } => Ds::new(*tag, set(*alg), set(*digest_type), digest.clone()),
        _ => unreachable!(),
    }
}

#[cfg(feature = "dnssec")]
pub fn build_key(r: &MR) -> DnsKey {
    match r {
        MR::DnsKey { zone, sep, alg, key, .. } => {
            let mut d = DnsKey::new(set(*alg), key.clone());
            d.zone_key = *zone;
            d.secure_entry_point = *sep;
            d
        }
        _ => unreachable!(),
    }
}

pub fn build_q(q: &MQ) -> Question {
    #[allow(unused_mut)]
    let mut x = Question::new(fq(&q.name), qtype(q.qtype), qclass(q.qclass));
    #[cfg(feature = "mdns")]
    if q.unicast {
        x.set_unicast_response(true);
    }
    x
}

pub fn build_r(r: &MRec) -> ResourceRecord {
    let code = r.rd.code();
    #[allow(unused_mut)]
    let mut x = ResourceRecord::new(fq(&r.name), rtype(code), rclass(r.class, code == 41), r.ttl, build_rd(&r.rd));
    #[cfg(feature = "mdns")]
    if r.flush {
        x.set_cache_flush(true);
    }
    x
}

/// Can this flag word be reached with the setters?
pub fn settable(f: u16) -> bool {
    let z = f >> 4 & 7;
    let op = f >> 11 & 15;
    let qr = f >> 15 != 0;
    let ra = f >> 7 & 1 != 0;
    z == 0 && op <= 3 && (qr || (!ra && f & 15 == 0))
}

pub fn rcode(c: u8) -> ResponseCode {
    use ResponseCode::*;
    [
        NoError, FormatError, ServerFailure, NameError, NotImplemented, Refused, YXDomain, YXRRSet, NXRRSet, NotAuth, NotZone,
    ][c as usize]
}

pub fn rcode_num(c: ResponseCode) -> u8 {
    (0..=10).find(|i| rcode(*i) == c).unwrap()
}

pub fn opcode(c: u8) -> OpCode {
    match c {
        0 => OpCode::StandardQuery,
        1 => OpCode::InverseQuery,
        2 => OpCode::ServerStatusRequest,
        _ => OpCode::Reserved,
    }
}

pub fn set_flags(p: &mut Packet, id: u16, f: u16) {
    if settable(f) {
        p.set_id(id);
        p.set_query_response(f >> 15 != 0);
        p.set_opcode(opcode((f >> 11 & 15) as u8));
        p.set_authoritative_answer(f >> 10 & 1 != 0);
        p.set_truncation(f >> 9 & 1 != 0);
        p.set_recursion_desired(f >> 8 & 1 != 0);
        p.set_recursion_available(f >> 7 & 1 != 0);
        p.set_response_code(rcode((f & 15) as u8));
    } else {
        let mut b = id.to_be_bytes().to_vec();
        b.extend(f.to_be_bytes());
        b.extend([0; 8]);
        let mut buf = DnsBuffer::from(&b[..]);
        let h = Header::try_from(&mut buf).expect("header");
        p.set_header(h);
    }
}

/// A packet for the message; `variant` selects between equivalent ways to build it.
pub fn build(m: &MMsg, variant: u64) -> Packet {
    let mut p = match variant % 3 {
        0 => Packet::default(),
        1 => Packet::new_query(m.id, false),
        _ => Packet::new_reply(m.id),
    };
    let late = variant & 8 != 0;
    if !late {
        set_flags(&mut p, m.id, m.flags);
    }
    let qs: Vec<Question> = m.q.iter().map(build_q).collect();
    if variant & 16 != 0 {
        p.set_questions(qs);
    } else {
        for q in qs {
            p.add_question(q);
        }
    }
    for s in 0..3 {
        let rs: Vec<ResourceRecord> = m.s[s].iter().map(build_r).collect();
        if variant >> (5 + s) & 1 != 0 {
            match s {
                0 => p.set_answers(rs),
                1 => p.set_authorities(rs),
                _ => p.set_additionals(rs),
            }
        } else {
            for r in rs {
                match s {
                    0 => p.add_answer(r),
                    1 => p.add_authority(r),
                    _ => p.add_additional(r),
                }
            }
        }
    }
    if late {
        set_flags(&mut p, m.id, m.flags);
    }
    p
}

// ---------------------------------------------------------------------------------------------
// comparison

macro_rules! same {
    ($what:expr, $field:expr, $got:expr, $want:expr) => {{
        let (g, w) = (&$got, &$want);
        ensure!(g == w, "{}: {} is {:?}, expected {:?}", $what, $field, Short(g), Short(w));
    }};
}

/// Debug output cut to a readable length.
pub struct Short<'a, T: ?Sized>(pub &'a T);
impl<T: std::fmt::Debug + ?Sized> std::fmt::Debug for Short<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let s = format!("{:?}", self.0);
        if s.len() > 300 {
            let t: String = s.chars().take(300).collect();
            write!(f, "{t}...")
        } else {
            write!(f, "{s}")
        }
    }
}

pub fn check_rd(what: &str, d: &RecordData, r: &MR) -> Res {
    ensure!(
        rd_code(d) == r.code(),
        "{what}: record data is of type {}, expected {}",
        type_name(rd_code(d)),
        type_name(r.code())
    );
    match (d, r) {
        (RecordData::A(x), MR::A(a)) => same!(what, "address", x.inner().octets(), *a),
        (RecordData::NS(x), MR::Ns(n)) => same!(what, "nsdname", unfq(&x.nsdname), *n),
        (RecordData::CNAME(x), MR::Cname(n)) => same!(what, "cname", unfq(&x.cname), *n),
        (RecordData::PTR(x), MR::Ptr(n)) => same!(what, "ptr", unfq(x.inner()), *n),
        (RecordData::SOA(x), MR::Soa { mname, rname, nums }) => {
            same!(what, "mname", unfq(&x.mname), *mname);
            same!(what, "rname", unfq(&x.rname), *rname);
            same!(what, "serial, refresh, retry, expire, minimum", [x.serial, x.refresh, x.retry, x.expire, x.minimum], *nums);
        }
        (RecordData::NULL(x), MR::Null(b)) => same!(what, "anything", x.anything, *b),
        (RecordData::WKS(x), MR::Wks { addr, proto, bitmap }) => {
            same!(what, "address", x.address.octets(), *addr);
            same!(what, "protocol", x.protocol, *proto);
            same!(what, "bitmap", x.bitmap, *bitmap);
        }
        (RecordData::HINFO(x), MR::Hinfo(c, o)) => {
            same!(what, "cpu", x.cpu, *c);
            same!(what, "os", x.os, *o);
        }
        (RecordData::MINFO(x), MR::Minfo(a, b)) => {
            same!(what, "rmailbx", unfq(&x.rmailbx), *a);
            same!(what, "emailbx", unfq(&x.emailbx), *b);
        }
        (RecordData::MX(x), MR::Mx(p, n)) => {
            same!(what, "preference", x.preference, *p);
            same!(what, "exchange", unfq(&x.exchange), *n);
        }
        (RecordData::TXT(x), MR::Txt(t)) => same!(what, "strings", x.0, *t),
        (RecordData::AAAA(x), MR::Aaaa(a)) => same!(what, "address", x.inner().octets(), *a),
        (RecordData::LOC(x), MR::Loc { b, n }) => {
            same!(what, "version, size, precisions", [x.version, x.size, x.horiz_pre, x.vert_pre], *b);
            same!(what, "latitude, longitude, altitude", [x.latitude, x.longitude, x.altitude], *n);
        }
        (RecordData::SRV(x), MR::Srv(p, w, o, n)) => {
            same!(what, "priority, weight, port", [x.priority, x.weight, x.port], [*p, *w, *o]);
            same!(what, "target", unfq(&x.target), *n);
        }
        (RecordData::OPT(x), MR::Opt(m)) => {
            let got: BTreeMap<u16, Vec<u8>> = x.0.iter().map(|(k, v)| (*k, v.clone())).collect();
            same!(what, "options", got, *m);
        }
        (RecordData::APL(x), MR::Apl { prefix, neg, v6, addr }) => {
            same!(what, "prefix", x.prefix, *prefix);
            same!(what, "negation", x.n, *neg);
            let mut a = if *v6 { addr.to_vec() } else { addr[..4].to_vec() };
            while a.last() == Some(&0) {
                a.pop();
            }
            same!(what, "address", x.afd_part.to_bytes(), a);
            let enc = x.to_bytes();
            same!(what, "family", enc[..2].to_vec(), if *v6 { vec![0, 2] } else { vec![0, 1] });
        }
        (RecordData::SSHFP(x), MR::Sshfp(a, t, f)) => {
            same!(what, "algorithm", x.algorithm, alg(*a));
            let ft = if *t == 0 { sshfp::FingerprintType::Reserved } else { sshfp::FingerprintType::SHA1 };
            same!(what, "fingerprint type", x.fingerprint_type, ft);
            same!(what, "fingerprint", x.fingerprint, *f);
        }
        (RecordData::IPSECKEY(x), MR::IpSecKey { prec, alg: a, gw, key }) => {
            same!(what, "precedence", x.precedence, *prec);
            same!(what, "algorithm", x.algorithm, alg(*a));
            let g = match gw {
                Gw::None => ipseckey::Gateway::None,
                Gw::V4(a) => ipseckey::Gateway::IpV4(v4(a)),
                Gw::V6(a) => ipseckey::Gateway::IpV6(v6(a)),
                Gw::Name(n) => ipseckey::Gateway::Domain(fq(n)),
            };
            same!(what, "gateway", x.gateway, g);
            same!(what, "public key", x.public_key, *key);
        }
        (RecordData::DHCID(x), MR::Dhcid(id, b)) => {
            same!(what, "identifier type", x.identifier_code, id_type(*id));
            same!(what, "digest", x.digest, *b);
        }
        (RecordData::TLSA(x), MR::Tlsa(u, s, m, b)) => {
            same!(what, "usage", x.cert_usage, cert_usage(*u));
            same!(what, "selector", x.selector, selector(*s));
            same!(what, "matching type", x.matching_type, matching(*m));
            same!(what, "data", x.associated_data, *b);
        }
        (RecordData::HIP(x), MR::Hip { alg: a, hit, key, rvs }) => {
            same!(what, "algorithm", x.public_key_algorithm, alg(*a));
            same!(what, "hit", x.hit, *hit);
            same!(what, "public key", x.public_key, *key);
            let got: Vec<Name> = x.rendevous_server.iter().flatten().map(unfq).collect();
            same!(what, "rendezvous servers", got, *rvs);
        }
        (RecordData::OPENPGPKEY(x), MR::OpenPgp(b)) => same!(what, "key", x.0, *b),
        (RecordData::CSYNC(x), MR::Csync { serial, flags, types: t }) => {
            same!(what, "serial", x.soa_serial, *serial);
            same!(what, "immediate", x.flags.immediate(), (flags & 1 != 0));
            same!(what, "soaminimum", x.flags.soa_minimum(), (flags & 2 != 0));
            let got: BTreeSet<u16> = x.types.iter().map(rtype_code).collect();
            same!(what, "types", got, *t);
        }
        (RecordData::SVCB(x), MR::Svcb { prio, target, params }) => {
            same!(what, "priority", x.priority, *prio);
            same!(what, "alias mode", svcb_is_alias(x), (*prio == 0));
            same!(what, "target", unfq(&x.target_name), *target);
            let got: Vec<Vec<u8>> = x.params.iter().map(|p| p.to_bytes()).collect();
            let want: Vec<Vec<u8>> = params.iter().map(|p| p.encode()).collect();
            same!(what, "parameters", got, want);
        }
        (RecordData::TKEY(x), MR::Tkey { alg, inception, expiration, mode, error, key, other }) => {
            same!(what, "algorithm", unfq(&x.algorithm), *alg);
            same!(what, "inception", x.inception, *inception);
            same!(what, "expiration", x.expiration, *expiration);
            same!(what, "mode", x.mode, tkey_mode(*mode));
            same!(what, "error", x.error, tkey_error(*error));
            same!(what, "key", x.key_data, *key);
            same!(what, "other", x.other_data, *other);
        }
        (RecordData::TSIG(x), MR::Tsig { alg, time, fudge, mac, id, error, other }) => {
            same!(what, "algorithm", unfq(&x.algorithm), *alg);
            same!(what, "time", x.time_signed, *time);
            same!(what, "fudge", x.fudge, *fudge);
            same!(what, "mac", x.mac, *mac);
            same!(what, "original id", x.original_id, *id);
            same!(what, "error", x.error, tsig_error(*error));
            same!(what, "other", x.other_data, *other);
        }
        (RecordData::URI(x), MR::Uri(p, w, t)) => {
            same!(what, "priority, weight", [x.priority, x.weight], [*p, *w]);
            same!(what, "target", x.target, *t);
        }
        (RecordData::CAA(x), MR::Caa { critical, tag, value }) => {
            same!(what, "critical", x.issuer_critical, *critical);
            same!(what, "tag", x.tag, *tag);
            same!(what, "value", x.value, *value);
        }
        #[cfg(feature = "dnssec")]
        (RecordData::DS(x) | RecordData::CDS(x), MR::Ds { tag, alg, digest_type, digest, .. }) => {
            same!(what, "key tag", x.key_tag, *tag);
            same!(what, "algorithm", u8::from(x.algorithm), *alg);
            same!(what, "digest type", u8::from(x.digest_type), *digest_type);
            same!(what, "digest", x.digest, *digest);
        }
        #[cfg(feature = "dnssec")]
        (RecordData::DNSKEY(x) | RecordData::CDNSKEY(x), MR::DnsKey { zone, sep, alg, key, .. }) => {
            same!(what, "zone key", x.zone_key, *zone);
            same!(what, "secure entry point", x.secure_entry_point, *sep);
            same!(what, "protocol", x.protocol(), 3);
            same!(what, "algorithm", u8::from(x.algorithm), *alg);
            same!(what, "public key", x.public_key, *key);
        }
        #[cfg(feature = "dnssec")]
        (RecordData::RRSIG(x), MR::Rrsig { tag, sig, .. }) => {
            same!(what, "key tag", x.key_tag(), *tag);
            same!(what, "signature", x.signature(), &sig[..]);
            same!(what, "signature record", *d, build_rd(r));
        }
        #[cfg(feature = "dnssec")]
        (RecordData::NSEC(x), MR::Nsec { next, types: t }) => {
            same!(what, "next name", unfq(&x.next_domain_name), *next);
            let got: BTreeSet<u16> = x.types.iter().map(rtype_code).collect();
            same!(what, "types", got, *t);
        }
        // without public fields
        (RecordData::NAPTR(_), MR::Naptr { .. }) => same!(what, "data", *d, build_rd(r)),
        (RecordData::EUI48(x), MR::Eui48(e)) => same!(what, "address", x.to_bytes(), e.to_vec()),
        (RecordData::EUI64(x), MR::Eui64(e)) => same!(what, "address", x.to_bytes(), e.to_vec()),
        _ => return Err(format!("{what}: unexpected record data")),
    }
    Ok(())
}

/// `Mode` of SVCB can not be named; alias mode is recognised by comparing discriminants with a
/// value known to be in alias mode.
fn svcb_is_alias(x: &Svcb) -> bool {
    let mut alias = x.clone();
    alias.priority = 0;
    std::mem::discriminant(&x.mode()) == std::mem::discriminant(&alias.mode())
}

pub fn check_q(what: &str, q: &Question, m: &MQ) -> Res {
    same!(what, "name", unfq(q.name()), m.name);
    same!(what, "type", qtype_code(q.query_type()), m.qtype);
    same!(what, "class", qclass_code(q.class()), m.qclass);
    #[cfg(feature = "mdns")]
    same!(what, "unicast response", q.unicast_response(), m.unicast);
    Ok(())
}

pub fn check_r(what: &str, r: &ResourceRecord, m: &MRec) -> Res {
    same!(what, "name", unfq(r.name()), m.name);
    same!(what, "type", rtype_code(r.record_type()), m.rd.code());
    same!(what, "class", *r.class(), rclass(m.class, m.rd.code() == 41));
    #[cfg(feature = "mdns")]
    same!(what, "cache flush", r.cache_flush(), m.flush);
    same!(what, "time to live", r.time_to_live(), m.ttl);
    check_rd(&format!("{what} ({})", type_name(m.rd.code())), r.data(), &m.rd)
}

pub fn check_header(h: &Header, m: &MMsg) -> Res {
    let b = h.to_bytes();
    ensure!(b.len() == 12, "header has {} octets", b.len());
    same!("header", "id", b[0..2].to_vec(), m.id.to_be_bytes().to_vec());
    same!("header", "flags", b[2..4].to_vec(), m.flags.to_be_bytes().to_vec());
    Ok(())
}

pub fn header_counts(h: &Header) -> [usize; 4] {
    let b = h.to_bytes();
    let w = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]) as usize;
    [w(4), w(6), w(8), w(10)]
}

pub fn check_flags(p: &Packet, m: &MMsg) -> Res {
    let f = m.flags;
    same!("packet", "id", p.id(), m.id);
    same!("packet", "query/response", p.query_response(), (f >> 15 != 0));
    same!("packet", "opcode", p.opcode(), opcode((f >> 11 & 15) as u8));
    same!("packet", "authoritative answer", p.authoritative_answer(), (f >> 10 & 1 != 0));
    same!("packet", "truncation", p.truncation(), (f >> 9 & 1 != 0));
    same!("packet", "recursion desired", p.recursion_desired(), (f >> 8 & 1 != 0));
    same!("packet", "recursion available", p.recursion_available(), (f >> 7 & 1 != 0));
    same!("packet", "response code", p.response_code(), rcode((f & 15) as u8));
    Ok(())
}

pub fn check_sections(p: &Packet, m: &MMsg) -> Res {
    same!("packet", "number of questions", p.questions().len(), m.q.len());
    for (i, (q, mq)) in p.questions().iter().zip(&m.q).enumerate() {
        check_q(&format!("question {i}"), q, mq)?;
    }
    for (s, (name, got)) in [
        ("answer", p.answers()),
        ("authority", p.authorities()),
        ("additional", p.additionals()),
    ]
    .iter()
    .enumerate()
    {
        ensure!(
            got.len() == m.s[s].len(),
            "packet: number of {name} records is {}, expected {}",
            got.len(),
            m.s[s].len()
        );
        for (i, (r, mr)) in got.iter().zip(&m.s[s]).enumerate() {
            check_r(&format!("{name} {i}"), r, mr)?;
        }
    }
    Ok(())
}

pub fn check_packet(p: &Packet, m: &MMsg) -> Res {
    check_header(p.header(), m)?;
    check_flags(p, m)?;
    let want = [m.q.len(), m.s[0].len(), m.s[1].len(), m.s[2].len()];
    same!("header", "section counts", header_counts(p.header()), want);
    check_sections(p, m)
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.len().min(b.len());
    let i = (0..n).find(|i| a[*i] != b[*i]).unwrap_or(n);
    let f = |x: &[u8]| hex(&x[i.min(x.len())..(i + 16).min(x.len())]);
    format!("lengths {} and {}, first difference at {i}: {} / {}", a.len(), b.len(), f(a), f(b))
}
