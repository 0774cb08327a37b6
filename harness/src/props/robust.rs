//! C01: no input makes decoding, or the use of what was decoded, crash, hang or exhaust memory.

use super::wire::*;
use crate::adapt::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::src::Src;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::convert::TryFrom;
use std::error::Error;
use std::fmt::{Debug, Write};

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "byte strings (mutated and truncated messages and record data, hostile pointer graphs, lying lengths, random octets) are decoded at every entry point and several positions under a memory budget, and everything accepted is printed, cloned, compared, measured and serialised; non-trivial: at least four octets and either something is accepted or an error occurs behind the header; distinct by input octets",
        phases: vec![
            phase("tiny", 512, 512, c01_tiny),
            phase("mutated", 40000, 2000000, c01_mutated),
            phase("rdata", 100000, 3000000, c01_rdata),
            phase("sweep", 600, 20000, c01_sweep),
            phase("random", 200000, 4000000, c01_random),
            phase("soup", 150000, 3000000, c01_soup),
            phase("hostile", 80, 2000, c01_hostile),
        ],
    }
}

/// Swallows what is written, so that printing costs no memory.
struct Sink(u64);
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len() as u64;
        if self.full() {
            return Err(std::fmt::Error);
        }
        Ok(())
    }
}

impl Sink {
    fn full(&self) -> bool {
        self.0 > 1 << 20
    }
}

/// Prints up to a megabyte.
fn print(v: &dyn Debug) {
    let mut k = Sink(0);
    let _ = write!(k, "{v:?}");
    if !k.full() {
        let mut k = Sink(0);
        let _ = write!(k, "{v:#?}");
    }
}

fn use_error(e: DnsError) {
    print(&e);
    let mut k = Sink(0);
    let _ = write!(k, "{e}");
    let mut n = 0;
    let mut c: Option<&(dyn Error + 'static)> = e.source();
    while let Some(x) = c {
        n += 1;
        assert!(n < 1000, "endless chain of error causes");
        let _ = write!(k, "{x}");
        c = x.source();
    }
}

fn use_name(n: &FQDN) {
    let mut k = Sink(0);
    let _ = write!(k, "{n} {n:?}");
    let _ = (n.is_empty(), n.len(), n.label_count(), n.is_link_local(), n.is_root());
    let _ = (n.byte_size(), n.to_bytes(), n.to_string());
    let c = n.clone();
    assert!(c == *n && c.cmp(n).is_eq(), "a name is not equal to its copy");
    for l in n {
        std::hint::black_box(l);
    }
}

fn use_value<T: ByteConvertible + Debug + Clone + PartialEq>(v: &T) {
    print(v);
    let c = v.clone();
    assert!(c == *v, "a value is not equal to its copy");
    std::hint::black_box((v.byte_size(), v.to_bytes()));
}

fn use_data(d: &RecordData) {
    use_value(d);
    match d {
        RecordData::SVCB(s) => {
            std::hint::black_box(s.mode());
        }
        RecordData::IPSECKEY(s) => {
            std::hint::black_box(s.gateway.gateway_type());
        }
        #[cfg(feature = "dnssec")]
        RecordData::DNSKEY(k) | RecordData::CDNSKEY(k) => {
            std::hint::black_box((k.protocol(), k.valid_protocol(), k.base64_public_key()));
        }
        #[cfg(feature = "dnssec")]
        RecordData::DS(k) | RecordData::CDS(k) => {
            std::hint::black_box(k.hex_digest());
        }
        #[cfg(feature = "dnssec")]
        RecordData::RRSIG(k) => {
            std::hint::black_box((k.key_tag(), k.signature().len(), k.base64_signature()));
        }
        _ => {}
    }
}

fn use_record(r: &ResourceRecord) {
    use_value(r);
    use_name(r.name());
    print(&(r.record_type(), r.class(), r.time_to_live()));
    #[cfg(feature = "mdns")]
    std::hint::black_box(r.cache_flush());
    std::hint::black_box(r.data_raw());
    use_data(r.data());
}

fn use_packet(p: &Packet) {
    use_value(p);
    std::hint::black_box(p.to_bytes_compressed());
    print(p.header());
    std::hint::black_box((p.id(), p.opcode(), p.response_code(), p.query_response(), p.recursion_available()));
    for q in p.questions() {
        use_value(q);
        use_name(q.name());
        #[cfg(feature = "mdns")]
        std::hint::black_box(q.unicast_response());
    }
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        use_record(r);
    }
    // records of one type as a set
    let all: Vec<_> = p.answers().iter().collect();
    if let Some(f) = all.first() {
        let same: Vec<&RecordData> = all.iter().filter(|r| r.record_type() == f.record_type()).map(|r| r.data()).collect();
        let mut set = ResourceRecordSet::new(f.name(), *f.record_type(), *f.class(), f.time_to_live(), same);
        std::hint::black_box((set.byte_size(), set.to_bytes().len()));
        set.canonical_reorder();
    }
    // and edited further
    let mut e = p.clone();
    let _ = e.take_questions();
    let a = e.take_answers();
    e.set_additionals(a);
    std::hint::black_box((e.to_bytes(), e.to_bytes_compressed()));
}

fn outcome<T>(r: Result<T, DnsError>) -> Option<T> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            use_error(e);
            None
        }
    }
}

/// Heap memory for decoding. Names grow by decompression: two octets can stand for a name of 127
/// labels, which takes 1600 times as much memory.
pub fn budget(len: usize) -> u64 {
    (256 << 10) + 4096 * len as u64
}

fn message(b: &[u8]) -> bool {
    let direct = with_budget(budget(b.len()), || outcome(Packet::try_from(b)));
    let mut buf = DnsBuffer::from(b);
    let other = with_budget(budget(b.len()), || outcome(Packet::try_from(&mut buf)));
    assert!(buf.position() <= b.len() && direct == other, "the two ways to decode a message disagree");
    if let Some(p) = &direct {
        with_budget(4 * budget(b.len()), || use_packet(p));
    }
    direct.is_some()
}

macro_rules! direct {
    ($code:expr, $buf:expr, $($c:literal => $t:ty),* ; $($dc:literal => $dt:ty),*) => {
        match $code {
            $($c => outcome(<$t>::try_from(&mut $buf)).map(|v| { use_value(&v); v.into_record_data() }),)*
            $(#[cfg(feature = "dnssec")] $dc => outcome(<$dt>::try_from(&mut $buf)).map(|v| { use_value(&v); v.into_record_data() }),)*
            _ => None,
        }
    };
}

fn data_at(b: &[u8], pos: usize, code: u16) -> bool {
    let mut buf = DnsBuffer::from(b);
    if buf.set_position(pos).is_err() {
        return false;
    }
    let d = with_budget(budget(b.len()), || outcome(RecordData::from(rtype(code), &mut buf)));
    if let Some(d) = &d {
        with_budget(4 * budget(b.len()), || use_data(d));
    }
    assert!(buf.position() <= b.len());
    let mut buf = DnsBuffer::from(b);
    buf.set_position(pos).unwrap();
    let _e = direct!(code, buf,
        1 => A, 2 => Ns, 5 => Cname, 6 => Soa, 10 => Null, 11 => Wks, 12 => Ptr, 13 => Hinfo, 14 => Minfo, 15 => Mx,
        16 => Txt, 28 => Aaaa, 29 => Loc, 33 => Srv, 35 => Naptr, 41 => Opt, 42 => Apl, 44 => Sshfp, 45 => IpSecKey,
        49 => Dhcid, 52 => Tlsa, 55 => Hip, 61 => OpenPgpKey, 62 => Csync, 64 => Svcb, 108 => Eui48, 109 => Eui64,
        249 => Tkey, 250 => Tsig, 256 => Uri, 257 => Caa;
        43 => Ds, 46 => Rrsig, 47 => Nsec, 48 => DnsKey, 59 => Ds, 60 => DnsKey);
    d.is_some()
}

fn entries_at(b: &[u8], pos: usize) -> bool {
    let at = |pos: usize| {
        let mut x = DnsBuffer::from(b);
        x.set_position(pos).ok().map(|_| x)
    };
    let mut any = false;
    if let Some(mut x) = at(pos) {
        if let Some(v) = with_budget(budget(b.len()), || outcome(Question::try_from(&mut x))) {
            use_value(&v);
            any = true;
        }
    }
    if let Some(mut x) = at(pos) {
        if let Some(v) = with_budget(budget(b.len()), || outcome(ResourceRecord::try_from(&mut x))) {
            use_record(&v);
            any = true;
        }
    }
    if let Some(mut x) = at(pos) {
        if let Some(v) = with_budget(budget(b.len()), || outcome(FQDN::try_from(&mut x))) {
            use_name(&v);
            any = true;
        }
    }
    if let Some(mut x) = at(pos) {
        if let Some(v) = outcome(Header::try_from(&mut x)) {
            use_value(&v);
            any = true;
        }
    }
    if let Some(mut x) = at(pos) {
        any |= outcome(Packet::try_from(&mut x)).is_some();
    }
    if let Some(mut x) = at(pos) {
        any |= outcome(x.extract_string()).is_some();
    }
    if let Some(mut x) = at(pos) {
        any |= outcome(x.extract_character_string()).is_some();
    }
    any
}

fn note(ctx: &mut Ctx, b: &[u8], accepted: bool) {
    ctx.eval();
    ctx.class(if accepted { "accepted" } else { "rejected" });
    if b.len() >= 4 && (accepted || b.len() > 12) {
        ctx.nontrivial_bytes(b);
    }
    if b.len() < 100 {
        ctx.sample(|| format!("{} {}", if accepted { "accepted" } else { "rejected" }, hex(b)));
    }
}

fn all_codes() -> Vec<u16> {
    let mut all = BASE_TYPES.to_vec();
    if HAS_DNSSEC {
        all.extend(DNSSEC_TYPES);
    }
    all
}

/// All strings of up to two octets, and those with a prefix of zeros, at every entry point.
fn c01_tiny(_s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let first = (idx % 256) as u8;
    let lead = if idx < 256 { 0 } else { 12 };
    let mut n = 0;
    let mut one = |b: &[u8], pos: usize| {
        for c in all_codes() {
            data_at(b, pos, c);
        }
        entries_at(b, pos);
        message(b);
        n += 1;
    };
    if idx == 0 {
        one(&[], 0);
    }
    let mut b = vec![0; lead];
    b.push(first);
    one(&b, lead);
    for x in 0..=255u8 {
        let mut b = vec![0; lead];
        b.extend([first, x]);
        one(&b, lead);
    }
    ctx.evals(n);
    ctx.nontrivial(idx);
    Ok(())
}

fn c01_mutated(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = any_bytes(s, idx);
    let mut any = message(&b);
    for _ in 0..3 {
        let pos = s.below(b.len() as u64 + 2) as usize;
        any |= entries_at(&b, pos);
        let code = *s.pick(&all_codes());
        any |= data_at(&b, pos, code);
    }
    note(ctx, &b, any);
    Ok(())
}

/// Mutated data of one type, inside a message and on its own.
fn c01_rdata(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = rdata_bytes(s, idx);
    let mut any = message(&b);
    let code = type_of(idx);
    let r = {
        let mut g = G::new(s);
        g.big = g.s.chance(1, 60);
        g.record_of(code)
    };
    let mut d = rdata_plain(&r.rd, true);
    d.truncate(65535);
    mutate(s, &mut d, &Marks::default());
    any |= data_at(&d, 0, code);
    note(ctx, &b, any);
    Ok(())
}

/// All prefixes of well-formed record data, and small changes of each of its first octets.
fn c01_sweep(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let code = type_of(idx);
    let r = G::new(s).record_of(code);
    let d = rdata_plain(&r.rd, true);
    if d.len() > 4000 {
        return Ok(());
    }
    let head = {
        let mut m = MMsg {
            flags: 0x8000,
            ..Default::default()
        };
        m.s[0].push(MRec {
            name: vec![b"a".to_vec()],
            class: 1,
            flush: false,
            ttl: 1,
            rd: r.rd.clone(),
        });
        let e = encode(&m, &mut Policy::Plain, true);
        e.bytes[..e.r[0].rdlen].to_vec()
    };
    let mut n = 0;
    let mut one = |d: &[u8], claimed: usize| {
        data_at(d, 0, code);
        let mut b = head.clone();
        b.extend((claimed as u16).to_be_bytes());
        b.extend(d);
        message(&b);
        n += 1;
    };
    // long data takes long each time
    let (cuts, octets) = if d.len() < 300 { (150, 64) } else { (30, 12) };
    let step = 1 + d.len() / cuts;
    for i in (0..d.len()).step_by(step) {
        one(&d[..i], i);
        // the record ends earlier than the message
        one(&d, i);
    }
    for extra in [1, 2, 255, 65535 - d.len().min(65535)] {
        one(&d, d.len() + extra);
    }
    for i in 0..d.len().min(octets) {
        let old = d[i];
        for v in [0, 1, old.wrapping_sub(1), old.wrapping_add(1), 0x3f, 0x40, 0x7f, 0x80, 0xc0, 0xff] {
            let mut e = d.clone();
            e[i] = v;
            one(&e, e.len());
            if i + 1 < e.len() {
                e[i + 1] = 0xff;
                one(&e, e.len());
                e[i + 1] = 0;
                one(&e, e.len());
            }
        }
    }
    ctx.evals(n);
    ctx.class(type_name(code));
    ctx.nontrivial_bytes(&d);
    ctx.sample(|| format!("{} {} ({n} variants)", type_name(code), hex(&d)));
    Ok(())
}

fn c01_random(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = random_bytes(s, idx);
    let mut any = message(&b);
    let pos = s.below(b.len() as u64 + 1) as usize;
    any |= entries_at(&b, pos);
    for _ in 0..4 {
        let code = *s.pick(&all_codes());
        let pos = s.below(b.len() as u64 + 1) as usize;
        any |= data_at(&b, pos, code);
    }
    note(ctx, &b, any);
    Ok(())
}

/// Small alphabets of structurally interesting octets.
fn c01_soup(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    const SETS: [&[u8]; 5] = [
        &[0, 1, 0xc0],
        &[0, 1, 2, 3, 0xc0, 12],
        &[0xc0, 0xc1, 0xff, 0, 63],
        &[0, 1, 0x40, 0x80, 0xc0, 0x3f],
        &[0xff, 0xfe, 0],
    ];
    let set = SETS[(idx % 5) as usize];
    let n = s.below(60) as usize;
    let mut b = vec![0, 1, 0x80, 0, 0, s.below(4) as u8, 0, s.below(4) as u8, 0, s.below(2) as u8, 0, s.below(2) as u8];
    for _ in 0..n {
        b.push(*s.pick(set));
    }
    let mut any = message(&b);
    for _ in 0..3 {
        let pos = s.below(b.len() as u64 + 1) as usize;
        any |= entries_at(&b, pos);
        let code = *s.pick(&all_codes());
        any |= data_at(&b, pos, code);
    }
    note(ctx, &b, any);
    Ok(())
}

/// Large messages whose cost grows with the way names point to each other.
fn c01_hostile(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut b = vec![0, 1, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0];
    let size = if ctx.thorough || idx < 16 { 65535 } else { 1 + s.below(20000) as usize };
    let kind = idx % 8;
    match kind {
        // records with pointers to a name of 127 labels
        0 | 1 => {
            let start = b.len();
            for _ in 0..126 {
                b.extend([1, b'a']);
            }
            b.extend([0, 0, 1, 0, 1]);
            b[5] = 1;
            let mut n = 0u16;
            while b.len() + 12 < size {
                if kind == 0 {
                    b.extend((0xc000 | start as u16).to_be_bytes());
                    b.extend([0, 2, 0, 1, 0, 0, 0, 0, 0, 2]);
                    b.extend((0xc000 | start as u16).to_be_bytes());
                } else {
                    let t = start + 2 * s.below(126) as usize;
                    b.extend((0xc000 | t as u16).to_be_bytes());
                    b.extend([0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
                }
                n += 1;
            }
            b[6..8].copy_from_slice(&n.to_be_bytes());
        }
        // rendezvous servers that are all pointers to a long name
        2 => {
            b[7] = 1;
            let start = b.len();
            for _ in 0..126 {
                b.extend([1, b'a']);
            }
            b.extend([0, 0, 55, 0, 1, 0, 0, 0, 0]);
            let n = (size.saturating_sub(b.len() + 20) / 2).min(32000);
            b.extend((4 + 2 * n as u16).to_be_bytes());
            b.extend([0, 1, 0, 0]);
            for _ in 0..n {
                b.extend((0xc000 | start as u16).to_be_bytes());
            }
        }
        // chains of pointers in opaque data, entered at the end
        3 => {
            b[7] = 2;
            b.extend([0, 0, 10, 0, 1, 0, 0, 0, 0]);
            let n = (size.saturating_sub(60) / 2).min(8000);
            b.extend((2 * n as u16 + 2).to_be_bytes());
            b.extend([1, b'x']);
            let first = b.len();
            // the first one refers to a root name in front of it
            b.extend([0xc0, 12]);
            for i in 1..n {
                let t = if s.chance(1, 50) { first + 2 * s.below(i as u64) as usize } else { first + 2 * (i - 1) };
                b.extend((0xc000 | t.min(0x3fff) as u16).to_be_bytes());
            }
            let last = b.len() - 2;
            b.extend((0xc000 | last.min(0x3fff) as u16).to_be_bytes());
            b.extend([0, 1, 0, 1, 0, 0, 0, 0, 0, 4, 1, 2, 3, 4]);
        }
        // loops
        4 => {
            b[7] = 1;
            let n = 1 + s.below(200) as usize;
            let first = b.len();
            for i in 0..n {
                let t = first + 2 * ((i + 1) % n);
                b.extend((0xc000 | t as u16).to_be_bytes());
            }
        }
        // counts that claim more than there is
        5 => {
            for x in &mut b[4..12] {
                *x = 0xff;
            }
            let n = s.below(3000) as usize;
            for _ in 0..n {
                b.extend([0, 0, 1, 0, 1]);
            }
        }
        // one huge record of any type full of the same octet
        6 => {
            b[7] = 1;
            b.push(0);
            b.extend(type_of(idx / 8).to_be_bytes());
            b.extend([0, 1, 0, 0, 0, 0]);
            let n = size.min(65000);
            b.extend((n as u16).to_be_bytes());
            let c = *s.pick(&[0u8, 1, 2, 0xff, 0xc0, 0x3f, 0x61, 0x80]);
            let second = *s.pick(&[0u8, 1, 12, c]);
            for i in 0..n {
                b.push(if i % 2 == 0 { c } else { second });
            }
        }
        // thousands of options or parameters
        _ => {
            b[7] = 1;
            b.push(0);
            let opt = s.bool();
            b.extend([0, if opt { 41 } else { 64 }, 0, 1, 0, 0, 0, 0]);
            let lenpos = b.len();
            b.extend([0, 0]);
            if !opt {
                b.extend([0, 1, 0]);
            }
            let mut k = if opt { 0 } else { 65280u32 };
            while b.len() + 4 < size.min(65000) && k < 65535 {
                b.extend((k as u16).to_be_bytes());
                b.extend([0, 0]);
                k += 1;
            }
            let n = (b.len() - lenpos - 2) as u16;
            b[lenpos..lenpos + 2].copy_from_slice(&n.to_be_bytes());
        }
    }
    let any = message(&b);
    ctx.class(["names pointing to a long name", "names pointing into a long name", "pointers in one record", "pointer chain", "pointer loop", "false counts", "uniform data", "many options"][kind as usize]);
    note(ctx, &b, any);
    Ok(())
}
