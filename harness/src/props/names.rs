//! C11 and C12: domain names.

use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::{hash_bytes, Src};
use maybe_dns::*;
use std::cmp::Ordering;
use std::convert::TryFrom;

// ---------------------------------------------------------------------------------------------
// C11

#[derive(Debug, PartialEq, Clone)]
pub enum Verdict {
    /// Labels, position after the name, number of pointers
    Name(Name, usize, usize),
    Reject(&'static str),
    /// Label types that RFC 1035 reserves; no statement, except that it ends
    Grey,
}

/// Reference decompressor, from RFC 1035 4.1.4.
pub fn decompress(b: &[u8], start: usize) -> Verdict {
    let mut labels = Vec::new();
    let mut size = 1;
    let mut pos = start;
    let mut run = start;
    let mut after = None;
    let mut pointers = 0;
    let mut grey = false;
    let reject = |grey: bool, why| if grey { Verdict::Grey } else { Verdict::Reject(why) };
    loop {
        let len = match b.get(pos) {
            None => return reject(grey, "runs out of the buffer"),
            Some(l) => *l as usize,
        };
        if len >= 0xc0 {
            if pos + 1 >= b.len() {
                return reject(grey, "runs out of the buffer");
            }
            if after.is_none() {
                after = Some(pos + 2);
            }
            let to = (len & 0x3f) << 8 | b[pos + 1] as usize;
            pointers += 1;
            if to >= run {
                return reject(grey, if to > pos { "points forwards" } else { "points into its own labels" });
            }
            pos = to;
            run = to;
        } else if len == 0 {
            if grey {
                return Verdict::Grey;
            }
            return Verdict::Name(labels, after.unwrap_or(pos + 1), pointers);
        } else {
            grey |= len > 63;
            if pos + 1 + len > b.len() {
                return reject(grey, "runs out of the buffer");
            }
            size += 1 + len;
            if size > 255 {
                return reject(grey, "exceeds 255 octets");
            }
            labels.push(b[pos + 1..pos + 1 + len].to_vec());
            pos += 1 + len;
        }
    }
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "names are read at every position of generated buffers and compared with a reference decompressor; non-trivial: a pointer is followed, or the name is rejected; distinct by buffer content and position",
        phases: vec![
            phase("exhaustive", 200, 1400, c11_exhaustive),
            phase("soup", 180000, 5000000, c11_soup),
            phase("wellformed", 60000, 1200000, c11_wellformed),
            phase("chains", 12000, 200000, c11_chains),
            phase("limits", 30000, 500000, c11_limits),
            phase("records", 30000, 500000, c11_records),
        ],
    }
}

fn c11_at(b: &[u8], start: usize, how: u64, ctx: &mut Ctx) -> Res {
    let want = decompress(b, start);
    ctx.eval();
    match &want {
        Verdict::Name(_, _, 0) => ctx.class("plain name"),
        Verdict::Name(_, _, 1) => ctx.class("one pointer"),
        Verdict::Name(_, _, _) => ctx.class("several pointers"),
        Verdict::Reject(why) => ctx.class(why),
        Verdict::Grey => ctx.class("reserved label type"),
    }
    if !matches!(want, Verdict::Name(_, _, 0) | Verdict::Grey) {
        ctx.nontrivial(hash_bytes(b) ^ (start as u64).wrapping_mul(0x9e3779b97f4a7c15));
        ctx.sample(|| format!("at {start} of {}: {want:?}", hex(&b[..b.len().min(80)])));
    }
    let mut whole = DnsBuffer::from(b);
    whole.set_position(start).map_err(|e| format!("set_position({start}) fails: {e:?}"))?;
    let describe = || format!("name at {start} of {}", hex(&b[..b.len().min(120)]));
    let (r, pos, rest) = match how % 3 {
        0 => {
            let r = whole.extract_fqdn();
            (r, whole.position(), whole.remaining())
        }
        1 => {
            let r = FQDN::try_from(&mut whole);
            (r, whole.position(), whole.remaining())
        }
        _ => {
            // the same octets as the data part of something larger
            let n = b.len() - start;
            let mut sub = whole.sub_buffer(n).map_err(|e| format!("sub_buffer: {e:?}"))?;
            let r = sub.extract_fqdn();
            (r, sub.position(), sub.remaining())
        }
    };
    ensure!(
        pos.checked_add(rest) == Some(b.len()),
        "{}: cursor at {pos} with {rest} remaining of {}",
        describe(),
        b.len()
    );
    match (&want, r) {
        (Verdict::Name(n, after, _), Ok(f)) => {
            ensure!(&unfq(&f) == n, "{} is read as {}, expected {}", describe(), show_name(&unfq(&f)), show_name(n));
            ensure!(pos == *after, "{}: cursor is at {pos} afterwards, expected {after}", describe());
        }
        (Verdict::Name(n, ..), Err(e)) => return Err(format!("{} is rejected ({e:?}), but it is {}", describe(), show_name(n))),
        (Verdict::Reject(why), Ok(f)) => return Err(format!("{} is accepted as {}, but it {why}", describe(), show_name(&unfq(&f)))),
        (Verdict::Reject(_), Err(_)) | (Verdict::Grey, _) => {}
    }
    Ok(())
}

/// All buffers of up to 6 (7) octets over an alphabet of 6, at all positions.
fn c11_exhaustive(_s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    const ALPHABET: [u8; 6] = [0, 1, 2, 4, 0xc0, 3];
    let len_max = if ctx.thorough { 7 } else { 6 };
    let chunks = if ctx.thorough { 1400 } else { 200 };
    let total: u64 = (1..=len_max).map(|n| 6u64.pow(n)).sum();
    let mut i = idx;
    while i < total {
        let mut k = i;
        let mut n = 1;
        while k >= 6u64.pow(n) {
            k -= 6u64.pow(n);
            n += 1;
        }
        let mut b = Vec::new();
        for _ in 0..n {
            b.push(ALPHABET[(k % 6) as usize]);
            k /= 6;
        }
        for start in 0..=b.len() {
            c11_at(&b, start, i, ctx)?;
        }
        i += chunks;
    }
    Ok(())
}

/// Labels, pointers and end marks in any order.
fn c11_soup(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let mut b: Vec<u8> = Vec::new();
    let mut starts: Vec<usize> = vec![0];
    let n = 1 + g.s.below(24);
    for _ in 0..n {
        starts.push(b.len());
        match g.s.weighted(&[8, 4, 6, 1, 1]) {
            0 => {
                let l = g.label();
                b.push(l.len() as u8);
                b.extend(l);
            }
            1 => b.push(0),
            2 => {
                let here = b.len() as u64;
                let known = starts.clone();
                let t = g.s.draw(0x4000, |r| match r.below(8) {
                    0 => here,
                    1 => here + r.below(6),
                    2 => here.saturating_sub(r.below(6)),
                    3 => r.below(here + 8),
                    _ => known[r.below(known.len() as u64) as usize] as u64,
                });
                b.extend((0xc000 | t as u16).to_be_bytes());
            }
            3 => b.push(g.u8()),
            _ => {
                let n = g.s.below(4) as usize;
                let x = g.bytes_len(n);
                b.extend(x);
            }
        }
    }
    starts.push(b.len());
    for (k, p) in starts.iter().enumerate() {
        c11_at(&b, *p, idx + k as u64, ctx)?;
    }
    let p = g.s.below(b.len() as u64 + 1) as usize;
    c11_at(&b, p, idx, ctx)
}

/// Names encoded with any legal compression, read at every label.
fn c11_wellformed(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.types = Some(vec![2, 6, 14]);
        if idx % 50 == 0 {
            g.limit_message()
        } else {
            g.any_message()
        }
    };
    let e = encode(&m, &mut Policy::Random(s), true);
    let mut b = e.bytes;
    for (k, p) in e.names.iter().enumerate() {
        c11_at(&b, *p, idx + k as u64, ctx)?;
    }
    // cut somewhere in the last name
    if let Some(last) = e.names.last() {
        let cut = last + s.below(20) as usize;
        b.truncate(cut.max(*last));
        c11_at(&b, *last, idx, ctx)?;
    }
    Ok(())
}

/// Long chains of pointers.
fn c11_chains(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let mut b = encode_name(&g.name());
    let mut at = 0usize;
    let n = g.s.draw(8000, |r| match r.below(4) {
        0 => r.below(8000),
        1 => [10, 16, 32, 64, 100, 126, 127, 128, 255, 256][r.below(10) as usize] + r.below(3),
        _ => r.below(40),
    });
    for _ in 0..n {
        if b.len() > 0x3fff {
            break;
        }
        let here = b.len();
        if g.s.chance(1, 16) {
            let l = g.label();
            b.push(l.len() as u8);
            b.extend(l);
        }
        b.extend((0xc000 | at as u16).to_be_bytes());
        at = here;
    }
    let k = g.s.below(4);
    for i in 0..k {
        let extra = g.s.below(5) as usize;
        b.extend(vec![1; extra]);
        c11_at(&b, at, idx + i, ctx)?;
    }
    c11_at(&b, at, idx, ctx)
}

/// Names of 250 to 260 octets in several parts, and pointer targets around 0x3fff.
fn c11_limits(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let pad = if g.s.chance(1, 8) { 0x3f00 + g.s.below(0x110) as usize } else { g.s.below(20) as usize };
    let mut b = vec![0; pad];
    let total = 250 + g.s.below(11) as usize;
    // lengths of labels that add up to total - 1
    let mut room = total - 1;
    let mut parts: Vec<usize> = Vec::new();
    while room > 0 {
        let l = if room <= 64 && g.s.bool() {
            room
        } else {
            2 + g.s.below(63.min(room as u64 - 1).max(1)) as usize
        };
        let l = l.min(room).min(64);
        if l < 2 {
            parts.push(2);
            break;
        }
        parts.push(l);
        room -= l;
    }
    // tail first, the rest in front with pointers
    let mut tail: Option<usize> = None;
    let mut i = parts.len();
    while i > 0 {
        let k = 1 + g.s.below(i as u64) as usize;
        let here = b.len();
        for l in &parts[i - k..i] {
            b.push(*l as u8 - 1);
            b.extend(vec![b'a' + (*l % 26) as u8; *l - 1]);
        }
        match tail {
            None => b.push(0),
            Some(t) if t <= 0x3fff => b.extend((0xc000 | t as u16).to_be_bytes()),
            Some(_) => b.push(0),
        }
        tail = Some(here);
        i -= k;
        c11_at(&b, here, idx, ctx)?;
    }
    // the last octets may be missing
    let cut = g.s.below(4) as usize;
    b.truncate(b.len() - cut.min(b.len()));
    if let Some(t) = tail {
        if t <= b.len() {
            c11_at(&b, t, idx, ctx)?;
        }
    }
    Ok(())
}

/// The same rules hold for names in questions and in record data, where the name has to end within
/// the data.
fn c11_records(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let mut b = vec![0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0];
    let qname = g.name();
    b.extend(encode_name(&qname));
    b.extend([0, 1, 0, 1]);
    // owner
    let owner_at = b.len();
    let o = g.s.below(3);
    if o == 0 {
        b.extend([0xc0, 12]);
    } else {
        b.extend(encode_name(&g.name()));
    }
    b.extend([0, 2, 0, 1, 0, 0, 0, 0]);
    let len_at = b.len();
    b.extend([0, 0]);
    let at = b.len();
    let n = g.s.below(5);
    for _ in 0..n {
        let l = g.label();
        b.push(l.len() as u8);
        b.extend(l);
    }
    let here = b.len() as u64;
    if g.s.bool() {
        b.push(0);
    } else {
        let t = g.s.draw(0x4000, |r| match r.below(8) {
            0 => at as u64,
            1 => here,
            2 => here + r.below(4),
            3 => owner_at as u64,
            4 => r.below(here),
            _ => 12 + r.below(4),
        });
        b.extend((0xc000 | t as u16).to_be_bytes());
    }
    let declared = (b.len() - at) as i64 + [0, 0, 0, 0, -1, 1, -2][g.s.below(7) as usize];
    let declared = declared.max(0) as u16;
    b[len_at..len_at + 2].copy_from_slice(&declared.to_be_bytes());
    let junk = g.s.below(4) as usize;
    b.extend(vec![0; junk]);
    let end = at + declared as usize;
    let want = if end > b.len() {
        Verdict::Reject("does not fit")
    } else {
        decompress(&b[..end], at)
    };
    ctx.eval();
    ctx.nontrivial_bytes(&b);
    let p = Packet::try_from(&b[..]);
    match want {
        Verdict::Name(n, after, _) if after == end => {
            let p = p.map_err(|e| format!("message {} is rejected: {e:?}", hex(&b)))?;
            match p.answers()[0].data() {
                RecordData::NS(x) => ensure!(unfq(&x.nsdname) == n, "NS name of {} is read as {}", hex(&b), show_name(&unfq(&x.nsdname))),
                _ => return Err("not an NS record".into()),
            }
            ctx.class("in record: accepted");
        }
        Verdict::Reject(why) => {
            ensure!(p.is_err(), "message {} is accepted, but the NS name {why}", hex(&b));
            ctx.class("in record: rejected");
        }
        _ => {}
    }
    let _ = idx;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C12

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "names are built from text, label lists and octets, and every accessor is compared with the label sequence; non-trivial: two labels or more; distinct by label sequence",
        phases: vec![
            phase("text", 480000, 2000000, c12_text),
            phase("labels", 480000, 2000000, c12_labels),
            phase("history", 240000, 800000, c12_history),
            phase("order", 480000, 2000000, c12_order),
        ],
    }
}

/// All accessors against the model; `n` may contain empty labels.
fn c12_check(f: &FQDN, n: &Name, ctx: &mut Ctx) -> Res {
    ctx.eval();
    if n.len() > 1 {
        ctx.nontrivial(hash_bytes(&n.join(&256u16.to_le_bytes()[..])));
    }
    let what = || format!("name {}", show_name(n));
    let plain: Name = n.iter().filter(|l| !l.is_empty()).cloned().collect();
    ensure!(f.iter().cloned().collect::<Name>() == *n, "{}: iter gives {}", what(), show_name(&unfq(f)));
    ensure!(f.into_iter().cloned().collect::<Name>() == *n, "{}: iteration by reference differs", what());
    ensure!(f.clone().into_iter().collect::<Name>() == *n, "{}: iteration by value differs", what());
    ensure!(f.clone().iter_mut().map(|l| l.clone()).collect::<Name>() == *n, "{}: mutable iteration differs", what());
    ensure!(
        (&mut f.clone()).into_iter().map(|l| l.clone()).collect::<Name>() == *n,
        "{}: mutable iteration differs",
        what()
    );
    if n.len() < 256 {
        ensure!(f.label_count() as usize == n.len(), "{}: label count is {}", what(), f.label_count());
    }
    ensure!(f.is_empty() == n.is_empty(), "{}: is_empty is {}", what(), f.is_empty());
    ensure!(f.is_root() == plain.is_empty(), "{}: is_root is {}", what(), f.is_root());
    let local = n.last().map(|l| l == b"local").unwrap_or(false);
    let maybe_local = n.last().map(|l| l.eq_ignore_ascii_case(b"local")).unwrap_or(false);
    // letter case of "local" is left open
    if local || !maybe_local {
        ensure!(f.is_link_local() == local, "{}: is_link_local is {}", what(), f.is_link_local());
    }
    ensure!(f.byte_size() == name_len(&plain), "{}: size is {}", what(), f.byte_size());
    ensure!(f.len() == name_len(&plain), "{}: len is {}", what(), f.len());
    if n.iter().all(|l| l.len() < 256) {
        ensure!(f.to_bytes() == encode_name(&plain), "{}: encoded as {}", what(), hex(&f.to_bytes()));
    }
    // printing
    let t = f.to_string();
    let want = n.iter().map(|l| String::from_utf8_lossy(l).to_string()).collect::<Vec<_>>().join(".");
    ensure!(t == want, "{}: printed as {t:?}, expected {want:?}", what());
    ensure!(format!("{f}") == t, "{}: printed in two ways", what());
    let _ = format!("{f:?}");
    // equality
    ensure!(f == &f.clone(), "{}: differs from its copy", what());
    ensure!(f == &FQDN::from(n.clone()), "{}: differs from the name with the same labels", what());
    // encoded and read again
    if !plain.is_empty() && plain.iter().all(|l| l.len() < 64) && name_len(&plain) <= 255 {
        let b = f.to_bytes();
        let mut buf = DnsBuffer::from(&b[..]);
        let back = FQDN::try_from(&mut buf).map_err(|e| format!("{}: rejected after encoding: {e:?}", what()))?;
        ensure!(unfq(&back) == plain, "{}: read back as {}", what(), show_name(&unfq(&back)));
        if plain.len() == n.len() {
            ensure!(&back == f, "{}: not equal after encoding and decoding", what());
        }
    }
    Ok(())
}

fn split(t: &str) -> Name {
    t.as_bytes()
        .split(|c| *c == b'.')
        .filter(|p| !p.is_empty())
        .map(|p| p.to_vec())
        .collect()
}

fn c12_text(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut t = String::new();
    let parts = g.s.below(8);
    for _ in 0..parts {
        match g.s.weighted(&[6, 3, 1, 2]) {
            0 => {
                let n = 1 + g.s.below(6);
                for _ in 0..n {
                    t.push((b'a' + g.s.below(26) as u8) as char);
                }
            }
            1 => {
                let x = g.text(20);
                t.push_str(&x);
            }
            2 => t.push_str(*g.s.pick(&["local", "Local", "arpa", "_tcp", "local ", "xlocal"])),
            _ => {}
        }
        if g.s.below(5) != 0 {
            t.push('.');
        }
    }
    if g.s.chance(1, 8) {
        t.push_str("local");
    }
    if g.s.chance(1, 60) {
        let n = match g.s.below(4) {
            0 => 200,
            1 => 120 + g.s.below(20),
            2 => 250 + g.s.below(20),
            _ => g.s.below(1200),
        };
        let part = *g.s.pick(&["a", "ab", "local", ""]);
        let mut v = vec![part; n as usize];
        v.push("z");
        t = v.join(".");
    }
    let n = split(&t);
    ctx.sample(|| format!("text {t:?}"));
    let f = FQDN::new(&t);
    ensure!(unfq(&f) == n, "text {t:?} gives {}, expected {}", show_name(&unfq(&f)), show_name(&n));
    ensure!(FQDN::from(t.as_str()) == f, "From<&str> and new differ for {t:?}");
    c12_check(&f, &n, ctx)?;
    // printing a name built from text and reading it again is the identity
    ensure!(FQDN::new(&f.to_string()) == f, "text {t:?} changes when printed and read again");
    Ok(())
}

fn c12_labels(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut n = g.name();
    let k = g.s.weighted(&[6, 1, 1]);
    for _ in 0..k {
        let i = g.s.below(n.len() as u64 + 1) as usize;
        n.insert(i, vec![]);
    }
    ctx.sample(|| show_name(&n));
    let f = FQDN::from(n.clone());
    c12_check(&f, &n, ctx)?;
    ensure!(FQDN::from(&n[..]) == f, "the two conversions from label lists differ for {}", show_name(&n));
    // list of texts, no splitting
    if let Ok(t) = n.iter().map(|l| std::str::from_utf8(l)).collect::<Result<Vec<_>, _>>() {
        let x = FQDN::from(&t[..]);
        ensure!(unfq(&x) == n, "list {t:?} gives {}", show_name(&unfq(&x)));
        c12_check(&x, &n, ctx)?;
    }
    // in questions and records
    let q = Question::new(f.clone(), QType::A, QClass::IN);
    ensure!(q.name() == &f, "question has another name");
    Ok(())
}

fn c12_history(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut n: Name = Vec::new();
    let mut f = match g.s.below(3) {
        0 => FQDN::default(),
        1 => {
            n = g.name();
            fq(&n)
        }
        _ => {
            n = g.name();
            let b = encode_name(&n);
            let mut buf = DnsBuffer::from(&b[..]);
            FQDN::try_from(&mut buf).map_err(|e| format!("{} is rejected: {e:?}", show_name(&n)))?
        }
    };
    let steps = 1 + g.s.below(10);
    for _ in 0..steps {
        match g.s.weighted(&[5, 2, 1, 1]) {
            0 => {
                let t = match g.s.below(4) {
                    0 => "local".to_string(),
                    1 => g.text(30),
                    2 => "a.b".to_string(),
                    _ => {
                        let n = 1 + g.s.below(5);
                        (0..n).map(|_| (b'a' + g.s.below(26) as u8) as char).collect()
                    }
                };
                f.append_label(&t);
                n.push(t.into_bytes());
            }
            1 => {
                // change labels in place
                if !n.is_empty() {
                    let i = g.s.below(n.len() as u64) as usize;
                    let l = g.label();
                    *f.iter_mut().nth(i).ok_or("mutable iteration ends early")? = l.clone();
                    n[i] = l;
                }
            }
            2 => {
                for (x, y) in (&mut f).into_iter().zip(n.iter_mut()) {
                    x.push(b'z');
                    y.push(b'z');
                }
            }
            _ => f = f.clone(),
        }
        c12_check(&f, &n, ctx)?;
    }
    ctx.sample(|| format!("after {steps} steps: {}", show_name(&n)));
    Ok(())
}

fn c12_order(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut v: Vec<(Name, FQDN)> = Vec::new();
    for _ in 0..4 {
        let mut n = g.name();
        if g.s.chance(1, 8) {
            let i = g.s.below(n.len() as u64 + 1) as usize;
            n.insert(i, vec![]);
        }
        let f = fq(&n);
        v.push((n, f));
    }
    for (n, x) in &v {
        for (m, y) in &v {
            ctx.eval();
            if n.len() > 1 && n != m {
                ctx.nontrivial(hash_bytes(&n.concat()) ^ hash_bytes(&m.concat()).rotate_left(1));
            }
            let what = || format!("{} and {}", show_name(n), show_name(m));
            ensure!((x == y) == (n == m), "equality of {} is {}", what(), x == y);
            ensure!((x != y) == (n != m), "inequality of {} is {}", what(), x != y);
            let o = x.cmp(y);
            ensure!((o == Ordering::Equal) == (n == m), "comparison of {} is {o:?}", what());
            ensure!(y.cmp(x) == o.reverse(), "comparison of {} is not antisymmetric", what());
            ensure!(x.partial_cmp(y) == Some(o), "partial_cmp of {} differs from cmp", what());
            ensure!((x < y) == (o == Ordering::Less) && (x >= y) == (o != Ordering::Less), "operators disagree with cmp for {}", what());
            for (k, z) in &v {
                if x <= y && y <= z {
                    ensure!(x <= z, "order of {} and {} is not transitive", what(), show_name(k));
                }
            }
        }
    }
    ctx.sample(|| v.iter().map(|x| show_name(&x.0)).collect::<Vec<_>>().join("  "));
    Ok(())
}
