//! C21: message framing.

use super::names::{decompress, Verdict};
use super::wire::*;
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::Src;
use maybe_dns::*;
use std::convert::TryFrom;

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "well-formed messages (any legal compression) are cut at every position, followed by arbitrary octets, given other counts and other data lengths, and mutated messages are compared with an independent framing; non-trivial: the message has a record; distinct by octets",
        phases: vec![
            phase("prefixes", 6000, 150000, c21_prefixes),
            phase("suffix", 30000, 800000, c21_suffix),
            phase("counts", 30000, 800000, c21_counts),
            phase("lengths", 40000, 1000000, c21_lengths),
            phase("mutated", 60000, 1500000, c21_mutated),
            phase("rdata", 60000, 1500000, c21_rdata),
        ],
    }
}

fn message(s: &mut Src, idx: u64) -> (MMsg, Enc) {
    let m = {
        let mut g = G::new(s);
        if idx % 2 == 0 {
            g.types = Some(vec![type_of(idx / 2)]);
        }
        if idx % 16 == 5 {
            g.any_message()
        } else {
            g.message()
        }
    };
    let e = encode(&m, &mut Policy::Random(s), true);
    (m, e)
}

/// End of the octets a name occupies itself.
fn skip_name(b: &[u8], mut at: usize) -> Option<usize> {
    loop {
        let l = *b.get(at)?;
        if l == 0 {
            return Some(at + 1);
        }
        if l >= 0xc0 {
            return (at + 2 <= b.len()).then_some(at + 2);
        }
        if l >= 0x40 {
            return None; // not specified
        }
        at += 1 + l as usize;
    }
}

/// In messages that are not well-formed, labels reached by a pointer of the owner name can lie
/// behind the record.
fn owner_inside(part: &[u8], start: usize) -> bool {
    matches!(decompress(part, start), Verdict::Name(..))
}

pub struct Frame {
    pub counts: [usize; 4],
    /// start and end of every question and record
    pub parts: Vec<(usize, usize)>,
    pub end: usize,
}

/// Where the entries of a message begin and end, from counts and lengths alone. `Err(true)`: it
/// does not fit into the octets; `Err(false)`: not specified.
pub fn frame(b: &[u8]) -> Result<Frame, bool> {
    if b.len() < 12 {
        return Err(true);
    }
    let w = |i: usize| u16::from_be_bytes([b[i], b[i + 1]]) as usize;
    let counts = [w(4), w(6), w(8), w(10)];
    let mut f = Frame {
        counts,
        parts: vec![],
        end: 12,
    };
    for (sec, n) in counts.iter().enumerate() {
        for _ in 0..*n {
            let start = f.end;
            let mut reserved = false;
            let at = match skip_name(b, start) {
                Some(x) => x,
                None => {
                    let mut i = start;
                    while i < b.len() {
                        if (0x40..0xc0).contains(&b[i]) {
                            reserved = true;
                            break;
                        }
                        if b[i] == 0 || b[i] >= 0xc0 {
                            break;
                        }
                        i += 1 + b[i] as usize;
                    }
                    return Err(!reserved);
                }
            };
            f.end = if sec == 0 {
                at + 4
            } else {
                if at + 10 > b.len() {
                    return Err(true);
                }
                at + 10 + w(at + 8)
            };
            if f.end > b.len() {
                return Err(true);
            }
            f.parts.push((start, f.end));
        }
    }
    Ok(f)
}

/// Compares decoding with the independent framing.
fn c21_framing(b: &[u8], ctx: &mut Ctx) -> Res {
    ctx.eval();
    let mut buf = DnsBuffer::from(b);
    let got = Packet::try_from(&mut buf);
    let f = frame(b);
    let (p, f) = match (got, f) {
        (Err(_), _) => {
            ctx.class("rejected");
            return Ok(());
        }
        (Ok(_), Err(true)) => return Err(format!("a message whose entries do not fit is accepted ({})", hex(&b[..b.len().min(200)]))),
        (Ok(_), Err(false)) => {
            ctx.class("reserved label type");
            return Ok(());
        }
        (Ok(p), Ok(f)) => (p, f),
    };
    ctx.class("accepted");
    if f.parts.len() > f.counts[0] {
        ctx.nontrivial_bytes(b);
    }
    let have = [p.questions().len(), p.answers().len(), p.authorities().len(), p.additionals().len()];
    ensure!(have == f.counts, "declared counts {:?}, but {have:?} entries were read", f.counts);
    ensure!(buf.position() == f.end, "{} octets were read, but the message has {} ({})", buf.position(), f.end, hex(&b[..b.len().min(200)]));
    // every entry on its own, from where it starts
    for (i, q) in p.questions().iter().enumerate() {
        let (start, end) = f.parts[i];
        let part = if owner_inside(&b[..end], start) { &b[..end] } else { b };
        let mut x = DnsBuffer::from(part);
        x.set_position(start).map_err(|_| "position")?;
        let o = Question::try_from(&mut x).map_err(|e| format!("question {i} is rejected on its own: {e:?}"))?;
        ensure!(o == *q && x.position() == end, "question {i} is read differently on its own");
    }
    for (i, r) in p.answers().iter().chain(p.authorities()).chain(p.additionals()).enumerate() {
        let (start, end) = f.parts[f.counts[0] + i];
        // once without and once with the octets that follow
        for (what, part) in [("when nothing follows", &b[..end]), ("on its own", b)] {
            if !owner_inside(part, start) {
                continue;
            }
            let mut x = DnsBuffer::from(part);
            x.set_position(start).map_err(|_| "position")?;
            let o = ResourceRecord::try_from(&mut x).map_err(|e| format!("record {i} is rejected {what}: {e:?} ({})", hex(&b[start..end.min(start + 100)])))?;
            ensure!(o == *r, "record {i} is read differently {what} ({})", hex(&b[start..end.min(start + 100)]));
            ensure!(x.position() == end, "record {i} ends at {}, expected {end} {what}", x.position());
        }
    }
    Ok(())
}

fn c21_prefixes(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let (m, e) = message(s, idx);
    let b = &e.bytes;
    let step = if b.len() < 1000 { 1 } else { 1 + b.len() / 200 };
    for n in (0..b.len()).step_by(step).chain(b.len().saturating_sub(12)..b.len()) {
        ctx.eval();
        let r = decode(&b[..n]);
        ensure!(r.is_err(), "the first {n} of {} octets of a message are accepted as a message: {}", b.len(), show_msg(&m));
    }
    ensure!(decode(b).is_ok(), "well-formed message is rejected: {}", show_msg(&m));
    if m.records().next().is_some() {
        ctx.nontrivial_bytes(b);
    }
    ctx.sample(|| format!("{} prefixes of {}", b.len(), show_msg(&m)));
    Ok(())
}

fn c21_suffix(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let (m, e) = message(s, idx);
    let n = e.bytes.len();
    let junk = match s.below(4) {
        0 => vec![0; 1 + s.below(20) as usize],
        1 => {
            // the beginning of another message or of the last record again
            let from = s.below(n as u64) as usize;
            e.bytes[from..].to_vec()
        }
        2 => vec![0xff; 1 + s.below(600) as usize],
        _ => G::new(s).blob(200),
    };
    let mut b = e.bytes.clone();
    b.extend(&junk);
    ctx.eval();
    if m.records().next().is_some() {
        ctx.nontrivial_bytes(&b);
    }
    let plain = decode(&e.bytes).map_err(|e| format!("well-formed message is rejected: {e:?}"))?;
    let d = decode(&b).map_err(|e| format!("message followed by {} octets is rejected: {e:?}", junk.len()))?;
    ensure!(d == plain, "octets after a message change the result: {}", show_msg(&m));
    check_packet(&d, &m)?;
    let mut buf = DnsBuffer::from(&b[..]);
    let d = Packet::try_from(&mut buf).map_err(|e| format!("message followed by {} octets is rejected: {e:?}", junk.len()))?;
    ensure!(d == plain, "octets after a message change the result: {}", show_msg(&m));
    ensure!(buf.position() == n, "after a message of {n} octets the position is {}", buf.position());
    ensure!(buf.remaining() == junk.len(), "{} octets remain, expected {}", buf.remaining(), junk.len());
    c21_framing(&b, ctx)
}

/// The counts decide which entries are read and into which section.
fn c21_counts(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let (m, e) = message(s, idx);
    let total = e.r.len();
    let mut b = e.bytes.clone();
    // a new partition of the first `n` records
    let n = s.below(total as u64 + 1) as usize;
    let x = s.below(n as u64 + 1) as usize;
    let y = x + s.below((n - x) as u64 + 1) as usize;
    let parts = [x, y - x, n - y];
    for (i, c) in parts.iter().enumerate() {
        b[6 + 2 * i..8 + 2 * i].copy_from_slice(&(*c as u16).to_be_bytes());
    }
    ctx.eval();
    if n > 0 {
        ctx.nontrivial_bytes(&b);
    }
    let mut buf = DnsBuffer::from(&b[..]);
    let p = Packet::try_from(&mut buf).map_err(|e| format!("message with counts {parts:?} for {total} records is rejected: {e:?}"))?;
    let end = if n == 0 { e.q.last().map(|q| q.1).unwrap_or(12) } else { e.r[n - 1].end };
    ensure!(buf.position() == end, "{} octets were read, the first {n} records end at {end}", buf.position());
    let all: Vec<&MRec> = m.records().collect();
    let want = MMsg {
        id: m.id,
        flags: m.flags,
        q: m.q.clone(),
        s: [
            all[..x].iter().map(|r| (*r).clone()).collect(),
            all[x..y].iter().map(|r| (*r).clone()).collect(),
            all[y..n].iter().map(|r| (*r).clone()).collect(),
        ],
    };
    check_packet(&p, &want).map_err(|e| format!("counts {parts:?} for {total} records: {e}"))?;
    // more entries than there are
    let i = s.below(4) as usize;
    let mut b = e.bytes.clone();
    let old = u16::from_be_bytes([b[4 + 2 * i], b[5 + 2 * i]]);
    let more = old as u64 + 1 + if s.bool() { 0 } else { s.draw(65535 - old as u64, |r| r.next() % (65535 - old as u64)) };
    b[4 + 2 * i..6 + 2 * i].copy_from_slice(&(more as u16).to_be_bytes());
    ctx.eval();
    match i {
        0 => c21_framing(&b, ctx),
        _ => {
            ensure!(decode(&b).is_err(), "a message with {old} entries in section {i} is accepted with a count of {more}");
            Ok(())
        }
    }
}

/// Another data length for one record, with octets inserted, removed or left as they are.
fn c21_lengths(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let (m, e) = message(s, idx);
    if e.r.is_empty() {
        return c21_framing(&e.bytes, ctx);
    }
    let k = s.below(e.r.len() as u64) as usize;
    let r = e.r[k].clone();
    let len = r.end - r.rdata;
    let mut b = e.bytes.clone();
    let kind = s.below(4);
    let new = match kind {
        // shorter, the rest belongs to what follows
        0 | 1 => s.below(len as u64 + 1) as usize,
        _ => (len + 1 + s.below(40) as usize).min(65535),
    };
    b[r.rdlen..r.rdlen + 2].copy_from_slice(&(new as u16).to_be_bytes());
    match kind {
        1 => {
            b.drain(r.rdata + new..r.end);
        }
        3 if new >= len => {
            let fill: Vec<u8> = (0..new - len).map(|_| s.below(256) as u8).collect();
            for (i, c) in fill.into_iter().enumerate() {
                b.insert(r.end + i, c);
            }
        }
        _ => {}
    }
    ctx.class(["shorter, same octets", "shorter", "longer, same octets", "longer"][kind as usize]);
    // The record depends only on octets up to its declared end
    let end = r.rdata + new;
    ctx.eval();
    if end <= b.len() && !owner_inside(&b[..end], r.start) {
        ctx.class("owner name runs behind the record");
    } else if end <= b.len() {
        let read = |part: &[u8]| -> Option<(ResourceRecord, usize)> {
            let mut x = DnsBuffer::from(part);
            x.set_position(r.start).ok()?;
            ResourceRecord::try_from(&mut x).ok().map(|v| (v, x.position()))
        };
        let alone = read(&b[..end]);
        let with = read(&b);
        let mut other = b.clone();
        for c in &mut other[end..] {
            *c = !*c;
        }
        let changed = read(&other);
        let what = type_name(m.records().nth(k).unwrap().rd.code());
        ensure!(alone == with && with == changed, "{what} record with data length {new} instead of {len} depends on the octets after it ({})", hex(&b[r.start..b.len().min(r.start + 120)]));
        if let Some((_, at)) = with {
            ensure!(at == end, "{what} record with data length {new} instead of {len} ends at {at}, expected {end}");
            ctx.nontrivial_bytes(&b);
        }
    } else {
        ensure!(decode(&b).is_err(), "a record whose data extends beyond the end of the message is accepted");
    }
    // whatever the length does to this record, the ones in front of it stay
    c21_framing(&b, ctx)
}

fn c21_mutated(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = any_bytes(s, idx);
    c21_framing(&b, ctx)
}

fn c21_rdata(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut b = rdata_bytes(s, idx);
    // something to read after the data
    let n = s.below(40) as usize;
    for _ in 0..n {
        b.push(s.below(256) as u8);
    }
    c21_framing(&b, ctx)
}
