//! C19: digests, key tags, label counts and renderings that are computed from other data.

use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::Src;
use maybe_dns::rdata::*;
use maybe_dns::*;
use sha2::{Digest, Sha256};

pub fn c19() -> Prop {
    #[allow(unused_mut)]
    let mut phases = vec![phase("dhcid", 180000, 1500000, c19_dhcid)];
    #[cfg(feature = "dnssec")]
    {
        phases.push(phase("ds", 180000, 1500000, keys::ds));
        phases.push(phase("tag", 60000, 400000, keys::tag));
        phases.push(phase("fields", 90000, 600000, keys::fields));
        phases.push(phase("old tag", 900, 3000, keys::old_tag));
        phases.push(phase("text", 120000, 1000000, keys::text));
        phases.push(phase("lengths", 2100, 2100, keys::lengths));
    }
    Prop {
        id: "C19",
        rule: "DHCP identifiers over generated identifiers and names, delegation digests and key tags over generated keys and names, fields of new signatures over generated sets and times, hexadecimal and base64 text over generated octets, each compared with a computation from the definitions by other code; non-trivial: the input is not empty; distinct by the octets that enter the computation",
        phases,
    }
}

/// Names in which the parts that the definitions mention matter: letters of both cases, wildcards,
/// the root, octets next to the letters.
pub fn owner(g: &mut G) -> Name {
    let mut n = g.name();
    match g.s.weighted(&[8, 3, 2, 1, 2]) {
        0 => {}
        1 => {
            // letters of both cases and their neighbours
            for l in &mut n {
                for o in l {
                    if g.s.chance(1, 2) {
                        *o = *g.s.pick(b"AZazMm@[`{\x00\xc1\xe1\xda\xfa");
                    }
                }
            }
        }
        2 => {
            let star: &[u8] = *g.s.pick(&[&b"*"[..], b"**", b"*a", b"a*", b"+"]);
            let at = if g.s.chance(2, 3) { 0 } else { g.s.usize(0, n.len()) };
            if name_len(&n) + star.len() + 1 <= 255 {
                n.insert(at, star.to_vec());
            }
        }
        3 => n.clear(),
        _ => {
            // lengths that are letters when taken for octets
            let len = *g.s.pick(&[63usize, 62, 1]);
            n = vec![vec![b'Q'; len], n.pop().unwrap_or_else(|| vec![b'X'])];
        }
    }
    n
}

/// The canonical form of a name on the wire.
pub fn canonical(n: &Name) -> Vec<u8> {
    encode_name(&n.iter().map(|l| l.iter().map(|o| if (0x41..=0x5a).contains(o) { o + 0x20 } else { *o }).collect()).collect())
}

fn c19_dhcid(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let code = g.s.below(3) as u16;
    let id = if g.s.chance(1, 20) { g.blob(3000) } else { g.blob(40) };
    let name = owner(&mut g);
    let d = Dhcid::new(id_type(code), &id, &fq(&name));
    ctx.eval();
    let mut input = id.clone();
    input.extend(canonical(&name));
    if !id.is_empty() {
        ctx.nontrivial_bytes(&input);
    }
    let want = Sha256::digest(&input).to_vec();
    let show = || format!("identifier {code} {} of {}", hex(&id), show_name(&name));
    ensure!(d.identifier_code == id_type(code), "{}: type {:?}", show(), d.identifier_code);
    ensure!(d.digest == want, "{}: digest {}, expected {}", show(), hex(&d.digest), hex(&want));
    let mut wire = code.to_be_bytes().to_vec();
    wire.push(1);
    wire.extend(&want);
    ensure!(d.to_bytes() == wire, "{}: record data {}, expected {}", show(), hex(&d.to_bytes()), hex(&wire));
    let mut b = DnsBuffer::from(&wire[..]);
    let back = Dhcid::try_from(&mut b).map_err(|e| format!("{}: own record data rejected with {e:?}", show()))?;
    ensure!(back == d, "{}: {d:?} is read back as {back:?}", show());
    // the other case of a letter is the same name
    let upper: Name = name.iter().map(|l| l.to_ascii_uppercase()).collect();
    let u = Dhcid::new(id_type(code), &id, &fq(&upper));
    ensure!(u == d, "{}: differs from {}", show(), show_name(&upper));
    ctx.class(["DHCP hardware address", "DHCP client identifier", "DHCP unique identifier"][code as usize]);
    ctx.sample(show);
    Ok(())
}

#[cfg(feature = "dnssec")]
mod keys {
    use super::super::sets;
    use super::super::signing;
    use super::*;
    use std::time::{Duration, UNIX_EPOCH};

    pub fn key_tag(alg: u8, rdata: &[u8]) -> u16 {
        if alg == 1 {
            let n = rdata.len();
            return if n >= 4 + 3 { u16::from_be_bytes([rdata[n - 3], rdata[n - 2]]) } else { 0 };
        }
        let mut ac: u64 = 0;
        let mut it = rdata.iter();
        while let Some(hi) = it.next() {
            ac += (*hi as u64) * 256 + it.next().copied().unwrap_or(0) as u64;
        }
        ac += (ac >> 16) & 0xffff;
        ac as u16
    }

    fn digest(kind: u8, data: &[u8]) -> Vec<u8> {
        match kind {
            1 => <sha1::Sha1 as sha1::Digest>::digest(data).to_vec(),
            2 => sha2::Sha256::digest(data).to_vec(),
            4 => sha2::Sha384::digest(data).to_vec(),
            5 => sha2::Sha512::digest(data).to_vec(),
            _ => unreachable!(),
        }
    }

    struct K {
        zone: bool,
        sep: bool,
        alg: u8,
        key: Vec<u8>,
    }

    impl K {
        fn build(&self) -> DnsKey {
            let mut d = DnsKey::new(set(self.alg), self.key.clone());
            d.zone_key = self.zone;
            d.secure_entry_point = self.sep;
            d
        }
        fn wire(&self) -> Vec<u8> {
            let mut o = vec![self.zone as u8, self.sep as u8, 3, self.alg];
            o.extend(&self.key);
            o
        }
    }

    fn key(g: &mut G, alg: u8) -> K {
        let key = match g.s.weighted(&[6, 2, 1, 1]) {
            0 => g.blob(300),
            1 => {
                let n = g.s.usize(0, 700);
                vec![0xff; n]
            }
            2 => {
                let n = g.s.usize(0, 4);
                g.bytes_len(n)
            }
            _ => {
                let n = g.s.usize(500, 4200);
                let seed = g.s.below(u64::MAX);
                fill(seed, n)
            }
        };
        K { zone: g.s.bool(), sep: g.s.bool(), alg, key }
    }

    pub fn ds(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
        let mut g = G::new(s);
        let alg = DNSSEC_ALGS[idx as usize % DNSSEC_ALGS.len()];
        let kind = *g.s.pick(DIGEST_TYPES);
        let k = key(&mut g, alg);
        let name = owner(&mut g);
        check_ds(ctx, &k, kind, &name)
    }

    fn check_ds(ctx: &mut Ctx, k: &K, kind: u8, name: &Name) -> Res {
        let d = Ds::try_from_dnskey(&fq(name), &k.build(), set(kind)).map_err(|e| format!("delegation of {} is rejected: {e:?}", show_name(name)))?;
        ctx.eval();
        let mut input = canonical(name);
        input.extend(k.wire());
        ctx.nontrivial_bytes(&input);
        let show = || format!("delegation type {kind} of {} with the key {}", show_name(name), hex(&k.wire()));
        let want = digest(kind, &input);
        ensure!(d.digest == want, "{}: digest {}, expected {}", show(), hex(&d.digest), hex(&want));
        let tag = key_tag(k.alg, &k.wire());
        ensure!(d.key_tag == tag, "{}: key tag {}, expected {tag}", show(), d.key_tag);
        ensure!(u8::from(d.algorithm) == k.alg, "{}: algorithm {:?}", show(), d.algorithm);
        ensure!(u8::from(d.digest_type) == kind, "{}: digest type {:?}", show(), d.digest_type);
        let text: String = want.iter().map(|b| format!("{:X}{:X}", b >> 4, b & 15)).collect();
        ensure!(d.hex_digest() == text, "{}: text {}, expected {text}", show(), d.hex_digest());
        let mut wire = tag.to_be_bytes().to_vec();
        wire.extend([k.alg, kind]);
        wire.extend(&want);
        ensure!(d.to_bytes() == wire, "{}: record data {}, expected {}", show(), hex(&d.to_bytes()), hex(&wire));
        // the other case of a letter is the same name
        let upper: Name = name.iter().map(|l| l.to_ascii_uppercase()).collect();
        let u = Ds::try_from_dnskey(&fq(&upper), &k.build(), set(kind)).map_err(|e| format!("{}: upper case rejected: {e:?}", show()))?;
        ensure!(u == d, "{}: differs in upper case", show());
        // a key that came over the wire is the same key
        let kw = k.wire();
        let mut b = DnsBuffer::from(&kw[..]);
        let parsed = DnsKey::try_from(&mut b).map_err(|e| format!("{}: key rejected: {e:?}", show()))?;
        let p = Ds::try_from_dnskey(&fq(name), &parsed, set(kind)).map_err(|e| format!("{}: parsed key rejected: {e:?}", show()))?;
        ensure!(p == d, "{}: differs for the parsed key", show());
        ctx.class(&format!("digest type {kind}"));
        ctx.sample(show);
        Ok(())
    }

    /// Every length of a key, with octets that make the sums large.
    pub fn lengths(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
        let mut g = G::new(s);
        let n = idx as usize;
        for (zone, octet) in [(true, 0xffu8), (false, 0x00), (true, 0x80)] {
            let alg = *g.s.pick(&DNSSEC_ALGS[1..]);
            let mut k = K { zone, sep: true, alg, key: vec![octet; n] };
            if octet == 0x80 {
                k.key = fill(idx, n);
            }
            check_ds(ctx, &k, 2, &vec![b"a".to_vec()])?;
        }
        Ok(())
    }

    pub fn tag(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
        // a signature takes the key tag from the public key it is given
        let mut g = G::new(s);
        let k = key(&mut g, 15);
        let (private, _) = signing::ed25519(&mut g);
        let name = vec![b"a".to_vec()];
        let owner = fq(&name);
        let rs = ResourceRecordSet::new(&owner, RecordType::A, RecordClass::IN, 1, vec![]);
        let sig = Rrsig::from_dnskey(&k.build(), &rs, &UNIX_EPOCH, &UNIX_EPOCH, &private).map_err(|e| format!("signing failed: {e:?}"))?;
        ctx.eval();
        ctx.nontrivial_bytes(&k.wire());
        let want = key_tag(15, &k.wire());
        ensure!(sig.key_tag() == want, "key tag of a signature with the key {} is {}, expected {want}", hex(&k.wire()), sig.key_tag());
        Ok(())
    }

    pub fn old_tag(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
        let mut g = G::new(s);
        let k = key(&mut g, 1);
        let private = signing::rsa_small(g.s);
        let owner = fq(&vec![b"a".to_vec()]);
        let rs = ResourceRecordSet::new(&owner, RecordType::A, RecordClass::IN, 1, vec![]);
        let sig = Rrsig::from_dnskey(&k.build(), &rs, &UNIX_EPOCH, &UNIX_EPOCH, private).map_err(|e| format!("signing failed: {e:?}"))?;
        ctx.eval();
        ctx.nontrivial_bytes(&k.wire());
        let want = key_tag(1, &k.wire());
        ensure!(sig.key_tag() == want, "key tag of an RSA/MD5 signature with the key {} is {}, expected {want}", hex(&k.wire()), sig.key_tag());
        Ok(())
    }

    fn time(g: &mut G) -> (std::time::SystemTime, u32) {
        let secs = match g.s.weighted(&[5, 2, 2]) {
            0 => g.u32() as u64,
            1 => *g.s.pick(&[0u64, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 999, 1000, 86400]),
            _ => 0xffff_ffff,
        };
        let nanos = *g.s.pick(&[0u32, 1, 499_999_999, 500_000_000, 999_999_999, 1_000_000]);
        (UNIX_EPOCH + Duration::new(secs, nanos), secs as u32)
    }

    pub fn fields(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
        let mut g = G::new(s);
        let codes = g.all_types();
        let code = codes[idx as usize % codes.len()];
        let mut m = sets::any_set(&mut g, code, 2, 4);
        m.name = owner(&mut g);
        let k = key(&mut g, 15);
        let (private, _) = signing::ed25519(&mut g);
        let (inc_t, inc) = time(&mut g);
        let (exp_t, exp) = time(&mut g);
        let name = fq(&m.name);
        let built: Vec<RecordData> = m.recs.iter().map(build_rd).collect();
        let rs = ResourceRecordSet::new(&name, rtype(m.code), sets::set_class(&m), m.ttl, built.iter().collect());
        let show = || format!("signature over {} {} {} from {inc} to {exp}", show_name(&m.name), type_name(m.code), m.ttl);
        if g.s.chance(1, 30) {
            // there is no number for a time before the epoch
            let early = UNIX_EPOCH - Duration::new(g.s.below(100000), 1);
            let (a, b) = *g.s.pick(&[(early, exp_t), (inc_t, early), (early, early)]);
            let r = Rrsig::from_dnskey(&k.build(), &rs, &a, &b, &private);
            ctx.eval();
            ctx.class("before the epoch");
            ensure!(r.is_err(), "{}: a time before the epoch is accepted", show());
            return Ok(());
        }
        let sig = Rrsig::from_dnskey(&k.build(), &rs, &inc_t, &exp_t, &private).map_err(|e| format!("{}: {e:?}", show()))?;
        ctx.eval();
        let wild = m.name.first().map(|l| l == b"*").unwrap_or(false);
        let labels = m.name.len() - wild as usize;
        let mut want = m.code.to_be_bytes().to_vec();
        want.extend([15, labels as u8]);
        want.extend(m.ttl.to_be_bytes());
        want.extend(exp.to_be_bytes());
        want.extend(inc.to_be_bytes());
        want.extend(key_tag(15, &k.wire()).to_be_bytes());
        want.extend(encode_name(&m.name));
        ctx.nontrivial_bytes(&want);
        let got = sig.to_bytes();
        ensure!(got.len() == want.len() + 64, "{}: {} octets, expected {}", show(), got.len(), want.len() + 64);
        ensure!(got[..want.len()] == want[..], "{}: fields {}, expected {}", show(), hex(&got[..want.len()]), hex(&want));
        ensure!(sig.signature() == &got[want.len()..], "{}: the signature is not the end of the record data", show());
        if wild {
            ctx.class("wildcard");
        }
        if m.name.is_empty() {
            ctx.class("root");
        }
        ctx.sample(show);
        Ok(())
    }

    const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

    pub fn base64(b: &[u8]) -> String {
        let mut o = String::new();
        for c in b.chunks(3) {
            let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
            for i in 0..4 {
                if i <= c.len() {
                    o.push(B64[(v >> (18 - 6 * i) & 63) as usize] as char);
                } else {
                    o.push('=');
                }
            }
        }
        o
    }

    pub fn text(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
        let mut g = G::new(s);
        let b = g.blob(600);
        ctx.evals(3);
        if !b.is_empty() {
            ctx.nontrivial_bytes(&b);
        }
        let alg = *g.s.pick(DNSSEC_ALGS);
        let k = DnsKey::new(set(alg), b.clone());
        ensure!(k.protocol() == 3 && k.valid_protocol(), "the protocol of a new key is {}", k.protocol());
        let want = base64(&b);
        ensure!(k.base64_public_key() == want, "key {} as text: {}, expected {want}", hex(&b), k.base64_public_key());
        let (c, l, n) = (g.pick_type(), g.u8(), g.name());
        let sig = Rrsig::new(rtype(c), set(alg), l, g.u32(), g.u32(), g.u32(), g.u16(), fq(&n), b.clone());
        ensure!(sig.base64_signature() == want, "signature {} as text: {}, expected {want}", hex(&b), sig.base64_signature());
        ensure!(sig.signature() == &b[..], "signature {} is {}", hex(&b), hex(sig.signature()));
        let d = Ds::new(g.u16(), set(alg), set(*g.s.pick(DIGEST_TYPES)), b.clone());
        let text: String = b.iter().map(|b| format!("{:X}{:X}", b >> 4, b & 15)).collect();
        ensure!(d.hex_digest() == text, "digest {} as text: {}", hex(&b), d.hex_digest());
        // the protocol of a key that was received
        let p = g.u8();
        let mut w = vec![1, 0, p, alg];
        w.extend(&b);
        let mut buf = DnsBuffer::from(&w[..]);
        let k = DnsKey::try_from(&mut buf).map_err(|e| format!("key {} is rejected: {e:?}", hex(&w)))?;
        ensure!(k.protocol() == p && k.valid_protocol() == (p == 3), "the protocol of the key {} is {}, valid: {}", hex(&w), k.protocol(), k.valid_protocol());
        ctx.sample(|| format!("{} as text: {want}", hex(&b)));
        Ok(())
    }
}
