//! C08, C09, C10 and C15: histories of operations on messages, headers, buffers and entries.

use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::props::names::{decompress, Verdict};
use crate::props::wire::decode;
use crate::src::Src;
use maybe_dns::*;
use std::convert::TryFrom;

// ---------------------------------------------------------------------------------------------
// header operations, shared by C08 and C09

#[derive(Clone, Copy, Debug)]
pub enum HOp {
    Rd(bool),
    Tc(bool),
    Aa(bool),
    Op(u8),
    Qr(bool),
    Rcode(u8),
    Ra(bool),
}

pub fn hops() -> Vec<HOp> {
    let mut v = Vec::new();
    for b in [false, true] {
        v.extend([HOp::Rd(b), HOp::Tc(b), HOp::Aa(b), HOp::Qr(b), HOp::Ra(b)]);
    }
    for c in 0..4 {
        v.push(HOp::Op(c));
    }
    for c in 0..=10 {
        v.push(HOp::Rcode(c));
    }
    v
}

fn bit(f: u16, i: u16, v: bool) -> u16 {
    if v {
        f | 1 << i
    } else {
        f & !(1 << i)
    }
}

pub fn model_hop(f: u16, o: HOp) -> u16 {
    match o {
        HOp::Rd(v) => bit(f, 8, v),
        HOp::Tc(v) => bit(f, 9, v),
        HOp::Aa(v) => bit(f, 10, v),
        HOp::Op(c) => f & !(15 << 11) | (c as u16) << 11,
        HOp::Qr(true) => bit(f, 15, true),
        HOp::Qr(false) => bit(bit(f, 15, false), 7, false) & !15,
        HOp::Rcode(c) => {
            let f = f & !15 | c as u16;
            if c != 0 {
                bit(f, 15, true)
            } else {
                f
            }
        }
        HOp::Ra(v) => {
            let f = bit(f, 7, v);
            if v {
                bit(f, 15, true)
            } else {
                f
            }
        }
    }
}

macro_rules! apply_hop {
    ($h:expr, $o:expr) => {
        match $o {
            HOp::Rd(v) => $h.set_recursion_desired(v),
            HOp::Tc(v) => $h.set_truncation(v),
            HOp::Aa(v) => $h.set_authoritative_answer(v),
            HOp::Op(c) => $h.set_opcode(opcode(c)),
            HOp::Qr(v) => $h.set_query_response(v),
            HOp::Rcode(c) => $h.set_response_code(rcode(c)),
            HOp::Ra(v) => $h.set_recursion_available(v),
        }
    };
}

macro_rules! check_getters {
    ($what:expr, $h:expr, $f:expr) => {{
        let f: u16 = $f;
        ensure!($h.query_response() == (f >> 15 != 0), "{}: query/response of {f:04x} is {}", $what, $h.query_response());
        let op = opcode((f >> 11 & 15) as u8);
        ensure!($h.opcode() == op, "{}: opcode of {f:04x} is {:?}", $what, $h.opcode());
        ensure!(
            $h.authoritative_answer() == (f >> 10 & 1 != 0),
            "{}: authoritative answer of {f:04x} is {}",
            $what,
            $h.authoritative_answer()
        );
        ensure!($h.truncation() == (f >> 9 & 1 != 0), "{}: truncation of {f:04x} is {}", $what, $h.truncation());
        ensure!(
            $h.recursion_desired() == (f >> 8 & 1 != 0),
            "{}: recursion desired of {f:04x} is {}",
            $what,
            $h.recursion_desired()
        );
        ensure!(
            $h.recursion_available() == (f >> 7 & 1 != 0),
            "{}: recursion available of {f:04x} is {}",
            $what,
            $h.recursion_available()
        );
        let rc = rcode((f & 15) as u8);
        ensure!($h.response_code() == rc, "{}: response code of {f:04x} is {:?}", $what, $h.response_code());
    }};
}

fn header(id: u16, flags: u16, counts: [u16; 4]) -> Result<Header, DnsError> {
    let mut b = id.to_be_bytes().to_vec();
    b.extend(flags.to_be_bytes());
    for c in counts {
        b.extend(c.to_be_bytes());
    }
    let mut buf = DnsBuffer::from(&b[..]);
    Header::try_from(&mut buf)
}

fn header_bytes(id: u16, flags: u16, counts: [u16; 4]) -> Vec<u8> {
    let mut b = id.to_be_bytes().to_vec();
    b.extend(flags.to_be_bytes());
    for c in counts {
        b.extend(c.to_be_bytes());
    }
    b
}

// ---------------------------------------------------------------------------------------------
// C09

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "every flag word is decoded, read, written and changed by every setter; setter histories on headers and messages against a 16 bit model; non-trivial: a word other than zero, or a history that changes the word; distinct by word and operation, or by history",
        phases: vec![
            phase("words", 256, 256, c09_words),
            phase("constructors", 512, 4096, c09_new),
            phase("history", 900000, 1800000, c09_history),
        ],
    }
}

fn c09_words(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let id = s.below(65536) as u16;
    let counts = [s.below(65536) as u16, 1, s.below(65536) as u16, 3];
    for low in 0..256u16 {
        let f = (idx as u16) << 8 | low;
        ctx.eval();
        if f & 15 > 10 {
            match header(id, f, counts) {
                Err(DnsError::InvalidResponseCode(c)) if c == (f & 15) as u8 => {}
                x => return Err(format!("header with response code {} is read as {x:?}", f & 15)),
            }
            // also as a message
            let b = header_bytes(id, f, [0; 4]);
            ensure!(decode(&b).is_err(), "message with response code {} is accepted", f & 15);
            continue;
        }
        let h = header(id, f, counts).map_err(|e| format!("flag word {f:04x} is rejected: {e:?}"))?;
        let b = h.to_bytes();
        ensure!(b == header_bytes(id, f, counts), "header with flag word {f:04x} is written as {}", hex(&b));
        check_getters!("header", h, f);
        let p = decode(&header_bytes(id, f, [0; 4])).map_err(|e| format!("message with flag word {f:04x} is rejected: {e:?}"))?;
        check_getters!("message", p, f);
        ensure!(p.id() == id, "id of the message is {}", p.id());
        ensure!(p.to_bytes() == header_bytes(id, f, [0; 4]), "message with flag word {f:04x} is written as {}", hex(&p.to_bytes()));
        ensure!(
            p.to_bytes_compressed() == header_bytes(id, f, [0; 4]),
            "message with flag word {f:04x} is compressed to {}",
            hex(&p.to_bytes_compressed())
        );
        for o in hops() {
            ctx.eval();
            ctx.nontrivial((f as u64) << 16 | model_hop(f, o) as u64);
            let want = model_hop(f, o);
            let mut x = h.clone();
            apply_hop!(x, o);
            let b = x.to_bytes();
            ensure!(
                b == header_bytes(id, want, counts),
                "{o:?} turns header {} into {}, expected {}",
                hex(&header_bytes(id, f, counts)),
                hex(&b),
                hex(&header_bytes(id, want, counts))
            );
            check_getters!(format!("header after {o:?}"), x, want);
            let mut x = p.clone();
            apply_hop!(x, o);
            let b = x.to_bytes();
            ensure!(
                b == header_bytes(id, want, [0; 4]),
                "{o:?} turns message {} into {}, expected {}",
                hex(&header_bytes(id, f, [0; 4])),
                hex(&b),
                hex(&header_bytes(id, want, [0; 4]))
            );
            check_getters!(format!("message after {o:?}"), x, want);
            ensure!(x.to_bytes_compressed() == b, "{o:?}: compressed message {} differs", hex(&x.to_bytes_compressed()));
        }
        if f % 997 == 3 {
            ctx.sample(|| format!("word {f:04x}"));
        }
    }
    Ok(())
}

fn c09_new(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let id = g.u16();
    let rd = g.s.bool();
    ctx.eval();
    let f = if rd { 0x100 } else { 0 };
    let want = header_bytes(id, f, [0; 4]);
    ensure!(Header::new_query(id, rd).to_bytes() == want, "new_query gives {}", hex(&Header::new_query(id, rd).to_bytes()));
    ensure!(Packet::new_query(id, rd).to_bytes() == want, "new_query gives {}", hex(&Packet::new_query(id, rd).to_bytes()));
    check_getters!("new_query", Header::new_query(id, rd), f);
    check_getters!("new_query", Packet::new_query(id, rd), f);
    for o in 0..4u16 {
        let f = 0x8000 | o << 11;
        let h = Header::new_reply(id, opcode(o as u8));
        ensure!(h.to_bytes() == header_bytes(id, f, [0; 4]), "new_reply gives {}", hex(&h.to_bytes()));
        check_getters!("new_reply", h, f);
    }
    let p = Packet::new_reply(id);
    ensure!(p.to_bytes() == header_bytes(id, 0x8000, [0; 4]), "new_reply gives {}", hex(&p.to_bytes()));
    check_getters!("new_reply", p, 0x8000u16);
    ensure!(Packet::default().to_bytes() == vec![0; 12], "default message is {}", hex(&Packet::default().to_bytes()));
    ensure!(Header::default().to_bytes() == vec![0; 12], "default header is {}", hex(&Header::default().to_bytes()));
    let qs: Vec<MQ> = (0..g.s.below(4)).map(|_| g.question()).collect();
    let p = Packet::with_questions(id, rd, qs.iter().map(build_q).collect());
    let b = p.to_bytes();
    ensure!(
        b[..12] == header_bytes(id, f, [qs.len() as u16, 0, 0, 0]),
        "with_questions gives {}",
        hex(&b[..12])
    );
    check_packet(
        &p,
        &MMsg {
            id,
            flags: f,
            q: qs,
            ..Default::default()
        },
    )
}

fn c09_history(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut id = g.u16();
    let mut f = g.flags();
    let counts = [g.u16(), g.u16(), g.u16(), g.u16()];
    let mut h = header(id, f, counts).map_err(|e| format!("flag word {f:04x} is rejected: {e:?}"))?;
    let mut p = Packet::default();
    p.set_header(h.clone());
    let all = hops();
    let n = 1 + g.s.below(24);
    let start = f;
    let mut log = format!("{f:04x}");
    let mut changed = false;
    for _ in 0..n {
        ctx.eval();
        match g.s.below(12) {
            0 => {
                id = g.u16();
                p.set_id(id);
            }
            1 => {
                // new header from an octet string
                f = g.flags();
                h = header(id, f, counts).map_err(|e| format!("flag word {f:04x} is rejected: {e:?}"))?;
                p.set_header(h.clone());
                log.push_str(&format!(" ={f:04x}"));
            }
            _ => {
                let o = *g.s.pick(&all);
                apply_hop!(h, o);
                apply_hop!(p, o);
                f = model_hop(f, o);
                log.push_str(&format!(" {o:?}"));
            }
        }
        changed |= f != start;
        let hb = h.to_bytes();
        ensure!(hb[2..4] == f.to_be_bytes(), "{log}: flag word of the header is {}, expected {f:04x}", hex(&hb[2..4]));
        ensure!(hb[4..] == header_bytes(0, 0, counts)[4..], "{log}: counts of the header change to {}", hex(&hb[4..]));
        check_getters!(format!("header, {log}"), h, f);
        let b = p.to_bytes();
        ensure!(b == header_bytes(id, f, [0; 4]), "{log}: message is {}, expected {f:04x}", hex(&b));
        ensure!(p.to_bytes_compressed() == b, "{log}: compressed message is {}", hex(&p.to_bytes_compressed()));
        check_getters!(format!("message, {log}"), p, f);
        check_getters!(format!("header of the message, {log}"), p.header(), f);
        ensure!(p.id() == id, "{log}: id is {}", p.id());
    }
    if changed {
        ctx.nontrivial_bytes(log.as_bytes());
    }
    ctx.sample(|| log);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C08

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "histories of edits on a message against a model of four lists and a flag word, compared after every step, serialised and decoded during and after the history; non-trivial: at least 5 edits and one entry; distinct by final octets",
        phases: vec![
            phase("history", 75000, 700000, c08_history),
            phase("small", 120000, 1000000, c08_small),
            phase("many", 180, 600, c08_many),
        ],
    }
}

struct Edit {
    p: Packet,
    m: MMsg,
    /// The number of questions was changed behind the back of the header
    stale: bool,
    log: Vec<String>,
}

impl Edit {
    fn start(g: &mut G) -> Result<Edit, String> {
        let mut m = MMsg::default();
        let p = match g.s.below(5) {
            0 => Packet::default(),
            1 => {
                m.id = g.u16();
                let rd = g.s.bool();
                m.flags = if rd { 0x100 } else { 0 };
                Packet::new_query(m.id, rd)
            }
            2 => {
                m.id = g.u16();
                m.flags = 0x8000;
                Packet::new_reply(m.id)
            }
            3 => {
                m.id = g.u16();
                let n = g.s.below(4);
                for _ in 0..n {
                    m.q.push(g.question());
                }
                let rd = g.s.bool();
                m.flags = if rd { 0x100 } else { 0 };
                Packet::with_questions(m.id, rd, m.q.iter().map(build_q).collect())
            }
            _ => {
                m = g.any_message();
                let e = encode(&m, &mut Policy::Greedy, true);
                decode(&e.bytes).map_err(|e| format!("starting message is rejected: {e:?}"))?
            }
        };
        Ok(Edit {
            p,
            m,
            stale: false,
            log: vec![],
        })
    }

    fn take(&mut self, s: usize) -> Vec<ResourceRecord> {
        match s {
            0 => self.p.take_answers(),
            1 => self.p.take_authorities(),
            _ => self.p.take_additionals(),
        }
    }
    fn set(&mut self, s: usize, v: Vec<ResourceRecord>) {
        match s {
            0 => self.p.set_answers(v),
            1 => self.p.set_authorities(v),
            _ => self.p.set_additionals(v),
        }
    }
    fn add(&mut self, s: usize, r: ResourceRecord) {
        match s {
            0 => self.p.add_answer(r),
            1 => self.p.add_authority(r),
            _ => self.p.add_additional(r),
        }
    }

    /// A new record, or one that is in the message already, or one that differs from it in one part.
    fn record(&self, g: &mut G, s: usize) -> MRec {
        let n = self.m.s.iter().map(|v| v.len()).sum::<usize>();
        if n == 0 || g.s.below(4) != 0 {
            return g.record();
        }
        let mut r = match self.m.s[s].last() {
            Some(r) if g.s.bool() => r.clone(),
            _ => {
                let i = g.s.below(n as u64) as usize;
                self.m.records().nth(i).unwrap().clone()
            }
        };
        let opt = r.rd.code() == 41;
        match g.s.below(10) {
            0 => r.name = g.name(),
            1 => r.ttl = g.u32(),
            2 => r.class = if opt { g.u16() } else { g.class() },
            3 => r.rd = g.rdata(r.rd.code()),
            4 if HAS_MDNS && !opt => r.flush = !r.flush,
            _ => {}
        }
        r
    }

    fn question(&self, g: &mut G) -> MQ {
        if self.m.q.is_empty() || g.s.below(4) != 0 {
            return g.question();
        }
        let i = g.s.below(self.m.q.len() as u64) as usize;
        let mut q = if g.s.bool() { self.m.q[i].clone() } else { self.m.q.last().unwrap().clone() };
        let n = g.question();
        match g.s.below(8) {
            0 => q.name = n.name,
            1 => q.qtype = n.qtype,
            2 => q.qclass = n.qclass,
            3 => q.unicast = n.unicast,
            _ => {}
        }
        q
    }

    fn step(&mut self, g: &mut G) -> Res {
        let s = g.s.below(3) as usize;
        match g.s.weighted(&[10, 3, 2, 6, 2, 1, 4, 4, 2, 1, 2, 2]) {
            0 => {
                let r = self.record(g, s);
                self.log.push(format!("add {} to {s}", type_name(r.rd.code())));
                self.add(s, build_r(&r));
                self.m.s[s].push(r);
            }
            1 => {
                let n = g.s.below(4);
                let mut v: Vec<MRec> = (0..n).map(|_| self.record(g, s)).collect();
                if g.s.chance(1, 8) {
                    // some entries twice
                    v.extend(v.clone());
                }
                let n = v.len();
                self.log.push(format!("set {s} to {n} records"));
                self.set(s, v.iter().map(build_r).collect());
                self.m.s[s] = v;
            }
            2 => {
                self.log.push(format!("take {s}"));
                let got = self.take(s);
                let want: Vec<ResourceRecord> = std::mem::take(&mut self.m.s[s]).iter().map(build_r).collect();
                ensure!(got == want, "{:?}: taken records differ", self.log);
            }
            3 => {
                let q = self.question(g);
                self.log.push("add question".into());
                self.p.add_question(build_q(&q));
                self.m.q.push(q);
            }
            4 => {
                let n = g.s.below(4);
                let v: Vec<MQ> = (0..n).map(|_| self.question(g)).collect();
                self.log.push(format!("set {n} questions"));
                self.p.set_questions(v.iter().map(build_q).collect());
                self.m.q = v;
                self.stale = false;
            }
            5 => {
                self.log.push("take questions".into());
                let got = self.p.take_questions();
                let want: Vec<Question> = std::mem::take(&mut self.m.q).iter().map(build_q).collect();
                ensure!(got == want, "{:?}: taken questions differ", self.log);
                self.stale = false;
            }
            6 => {
                let v = self.p.questions_mut();
                let n = v.len();
                match g.s.below(5) {
                    0 => {
                        let q = g.question();
                        let i = g.s.below(n as u64 + 1) as usize;
                        v.insert(i, build_q(&q));
                        self.m.q.insert(i, q);
                        self.stale = true;
                        self.log.push(format!("insert question at {i}"));
                    }
                    1 if n > 0 => {
                        let i = g.s.below(n as u64) as usize;
                        v.remove(i);
                        self.m.q.remove(i);
                        self.stale = true;
                        self.log.push(format!("remove question {i}"));
                    }
                    2 if n > 0 => {
                        let i = g.s.below(n as u64) as usize;
                        let q = g.question();
                        self.log.push(format!("edit question {i}"));
                        match g.s.below(3) {
                            0 => {
                                v[i].set_name(fq(&q.name));
                                self.m.q[i].name = q.name;
                            }
                            1 => {
                                v[i].set_query_type(qtype(q.qtype));
                                self.m.q[i].qtype = q.qtype;
                            }
                            _ => {
                                v[i].set_class(qclass(q.qclass));
                                self.m.q[i].qclass = q.qclass;
                            }
                        }
                        #[cfg(feature = "mdns")]
                        if g.s.bool() {
                            v[i].set_unicast_response(q.unicast);
                            self.m.q[i].unicast = q.unicast;
                        }
                    }
                    3 if n > 1 => {
                        v.swap(0, n - 1);
                        self.m.q.swap(0, n - 1);
                        self.log.push("swap questions".into());
                    }
                    4 => {
                        v.clear();
                        self.m.q.clear();
                        self.stale = true;
                        self.log.push("clear questions".into());
                    }
                    _ => {}
                }
            }
            7 => {
                let all = hops();
                let o = *g.s.pick(&all);
                self.log.push(format!("{o:?}"));
                apply_hop!(self.p, o);
                self.m.flags = model_hop(self.m.flags, o);
            }
            8 => {
                self.m.id = g.u16();
                self.log.push("set id".into());
                self.p.set_id(self.m.id);
            }
            9 => {
                self.m.id = g.u16();
                self.m.flags = g.flags();
                let counts = [g.u16(), g.u16(), g.u16(), g.u16()];
                self.log.push(format!("set header {:04x} {counts:?}", self.m.flags));
                let h = header(self.m.id, self.m.flags, counts).map_err(|e| format!("header is rejected: {e:?}"))?;
                self.p.set_header(h);
                self.stale = false;
            }
            10 => {
                // take, change, put back (possibly into another section)
                let mut v = self.take(s);
                let mut mv = std::mem::take(&mut self.m.s[s]);
                self.log.push(format!("edit records of {s}"));
                let k = g.s.below(3);
                for _ in 0..k {
                    if v.is_empty() {
                        break;
                    }
                    let i = g.s.below(v.len() as u64) as usize;
                    edit_record(g, &mut v[i], &mut mv[i])?;
                }
                if g.s.chance(1, 4) && !v.is_empty() {
                    let i = g.s.below(v.len() as u64) as usize;
                    v.remove(i);
                    mv.remove(i);
                }
                let to = if g.s.chance(1, 4) { g.s.below(3) as usize } else { s };
                self.set(to, v);
                self.m.s[to] = mv;
            }
            _ => {
                // through the wire
                let comp = g.s.bool();
                self.log.push(if comp { "through compressed octets".into() } else { "through octets".to_string() });
                let b = if comp { self.p.to_bytes_compressed() } else { self.p.to_bytes() };
                self.p = decode(&b).map_err(|e| format!("{:?}: rejected: {e:?}", self.log))?;
                self.stale = false;
            }
        }
        Ok(())
    }

    fn check(&self) -> Res {
        let go = || -> Res {
            check_flags(&self.p, &self.m)?;
            check_header(self.p.header(), &self.m)?;
            check_sections(&self.p, &self.m)?;
            let c = header_counts(self.p.header());
            for s in 0..3 {
                ensure!(c[s + 1] == self.m.s[s].len(), "header count of section {s} is {}, expected {}", c[s + 1], self.m.s[s].len());
            }
            ensure!(self.stale || c[0] == self.m.q.len(), "header count of questions is {}, expected {}", c[0], self.m.q.len());
            Ok(())
        };
        go().map_err(|e| format!("{e} after {:?}", self.log))
    }

    fn wire(&self, ctx: &mut Ctx) -> Res {
        let go = || -> Result<Vec<u8>, String> {
            let b = self.p.to_bytes();
            let c = self.p.to_bytes_compressed();
            let want = header_bytes(
                self.m.id,
                self.m.flags,
                [self.m.q.len() as u16, self.m.s[0].len() as u16, self.m.s[1].len() as u16, self.m.s[2].len() as u16],
            );
            ensure!(b[..12] == want, "plain message begins with {}, expected {}", hex(&b[..12]), hex(&want));
            ensure!(c[..12] == want, "compressed message begins with {}, expected {}", hex(&c[..12]), hex(&want));
            let d = decode(&b).map_err(|e| format!("plain message is rejected: {e:?}"))?;
            check_packet(&d, &self.m).map_err(|e| format!("plain message: {e}"))?;
            let e = decode(&c).map_err(|e| format!("compressed message is rejected: {e:?}"))?;
            check_packet(&e, &self.m).map_err(|e| format!("compressed message: {e}"))?;
            ensure!(self.stale || d == self.p, "decoded message is not equal");
            Ok(b)
        };
        let b = go().map_err(|e| format!("{e} after {:?}", self.log))?;
        if self.log.len() >= 5 && self.m.count() > 0 {
            ctx.nontrivial_bytes(&b);
        }
        Ok(())
    }
}

/// Changes one part of a record and nothing else.
fn edit_record(g: &mut G, r: &mut ResourceRecord, m: &mut MRec) -> Res {
    let opt = m.rd.code() == 41;
    match g.s.below(6) {
        0 => {
            m.name = g.name();
            r.set_name(fq(&m.name));
        }
        1 => {
            m.ttl = g.u32();
            r.set_time_to_live(m.ttl);
        }
        2 => {
            m.class = if opt { g.u16() } else { g.class() };
            r.set_class(rclass(m.class, opt));
        }
        3 => {
            let n = g.record();
            let new_opt = n.rd.code() == 41;
            if opt != new_opt {
                return Ok(());
            }
            r.set_record_type(rtype(n.rd.code()));
            r.set_data(build_rd(&n.rd));
            m.rd = n.rd;
        }
        4 => {
            // same type, other data
            let rd = g.rdata(m.rd.code());
            *r.data_mut() = build_rd(&rd);
            m.rd = rd;
        }
        _ => {
            #[cfg(feature = "mdns")]
            if !opt {
                m.flush = g.s.bool();
                r.set_cache_flush(m.flush);
            }
        }
    }
    check_r("edited record", r, m)?;
    let d = r.clone().take_data();
    ensure!(&d == r.data(), "take_data gives other data");
    ensure!(r.data_raw() == r.data().to_bytes(), "data_raw gives other octets");
    Ok(())
}

fn c08_history(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut e = Edit::start(&mut g)?;
    e.check()?;
    let n = 1 + g.s.below(40);
    for _ in 0..n {
        e.step(&mut g)?;
        ctx.eval();
        e.check()?;
        if g.s.chance(1, 8) {
            e.wire(ctx)?;
        }
    }
    e.wire(ctx)?;
    ctx.sample(|| format!("{:?}", e.log));
    Ok(())
}

/// Short histories with small records, compared on the wire after every step.
fn c08_small(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    g.types = Some(if g.s.bool() {
        vec![1, 2, 15]
    } else {
        let all = g.all_types();
        vec![*g.s.pick(&all)]
    });
    let mut e = Edit::start(&mut g)?;
    let n = 1 + g.s.below(8);
    for _ in 0..n {
        e.step(&mut g)?;
        ctx.eval();
        e.check()?;
        e.wire(ctx)?;
    }
    Ok(())
}

/// Thousands of entries.
fn c08_many(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let n = [255usize, 256, 257, 1000, 4096, 65535, 32768, 300][(idx % 8) as usize];
    let n = if !ctx.thorough && n > 40000 && idx > 8 { 512 } else { n };
    let sec = g.s.below(4) as usize;
    let mut e = Edit {
        p: Packet::default(),
        m: MMsg::default(),
        stale: false,
        log: vec![format!("{n} entries in {sec}")],
    };
    let q = MQ {
        name: vec![b"q".to_vec()],
        qtype: 1,
        qclass: 1,
        unicast: false,
    };
    let r = MRec {
        name: vec![],
        class: 1,
        flush: false,
        ttl: 7,
        rd: MR::A([1, 2, 3, 4]),
    };
    for i in 0..n {
        if sec == 3 {
            e.p.add_question(build_q(&q));
            e.m.q.push(q.clone());
        } else {
            let mut r = r.clone();
            r.ttl = i as u32;
            e.add(sec, build_r(&r));
            e.m.s[sec].push(r);
        }
    }
    ctx.eval();
    ctx.sample(|| format!("{n} entries in section {sec}"));
    e.log.extend(["".into(), "".into(), "".into(), "".into()]);
    e.check()?;
    e.wire(ctx)
}

// ---------------------------------------------------------------------------------------------
// C10

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "histories of operations on input buffers (nested sub-buffers included) against a model of octets and a cursor; non-trivial: at least one read succeeds and one request does not fit; distinct by buffer and history",
        phases: vec![
            phase("history", 1500000, 5000000, c10_history),
            phase("sizes", 30000, 60000, c10_sizes),
        ],
    }
}

struct Cursor<'a> {
    b: &'a [u8],
    pos: usize,
}

struct C10<'a, 'b, 'c> {
    g: &'a mut G<'b>,
    ctx: &'c mut Ctx,
    log: String,
    ok: u32,
    failed: u32,
}

fn big_len(g: &mut G, rest: usize) -> usize {
    g.s.draw(0, |r| match r.below(12) {
        0 => u64::MAX - r.below(4),
        1 => (1 << 63) - 2 + r.below(4),
        2 => (u64::MAX - rest as u64).wrapping_add(r.below(5)).wrapping_sub(2),
        3 => (1 << 32) - 2 + r.below(4),
        4 => rest as u64 + 1,
        5 => rest as u64,
        6 => rest.saturating_sub(1) as u64,
        7 => rest as u64 + r.below(300),
        _ => r.below(rest as u64 + 1),
    }) as usize
}

impl C10<'_, '_, '_> {
    fn same(&mut self, buf: &DnsBuffer, m: &Cursor) -> Res {
        ensure!(
            buf.position() == m.pos,
            "{}: cursor is at {}, expected {} ({} octets)",
            self.log,
            buf.position(),
            m.pos,
            m.b.len()
        );
        ensure!(buf.remaining() == m.b.len() - m.pos, "{}: {} octets remain, expected {}", self.log, buf.remaining(), m.b.len() - m.pos);
        ensure!(buf.as_slice() == m.b, "{}: the octets of the buffer changed", self.log);
        Ok(())
    }

    /// Cursor after a failed read of variable size is left open, but stays in the buffer.
    fn resync(&mut self, buf: &DnsBuffer, m: &mut Cursor) -> Res {
        self.failed += 1;
        ensure!(
            buf.position().checked_add(buf.remaining()) == Some(m.b.len()),
            "{}: position {} and {} remaining octets in a buffer of {}",
            self.log,
            buf.position(),
            buf.remaining(),
            m.b.len()
        );
        m.pos = buf.position();
        Ok(())
    }

    fn run(&mut self, buf: &mut DnsBuffer, m: &mut Cursor, depth: usize) -> Res {
        let n = 1 + self.g.s.below(14);
        for _ in 0..n {
            self.step(buf, m, depth)?;
            self.ctx.eval();
            self.same(buf, m)?;
        }
        Ok(())
    }

    fn fixed<T: PartialEq + std::fmt::Debug>(&mut self, got: Result<T, DnsError>, want: Option<T>, m: &mut Cursor, n: usize) -> Res {
        match (got, want) {
            (Ok(g), Some(w)) => {
                ensure!(g == w, "{}: returns {:?}, expected {:?}", self.log, Short(&g), Short(&w));
                m.pos += n;
                self.ok += 1;
            }
            (Err(_), None) => self.failed += 1,
            (g, w) => return Err(format!("{}: returns {:?}, expected {:?} (at {} of {})", self.log, Short(&g), Short(&w), m.pos, m.b.len())),
        }
        Ok(())
    }

    fn step(&mut self, buf: &mut DnsBuffer, m: &mut Cursor, depth: usize) -> Res {
        let rest = m.b.len() - m.pos;
        let ahead = |n: usize| (n <= rest).then(|| m.b[m.pos..m.pos + n].to_vec());
        match self.g.s.weighted(&[4, 4, 3, 3, 3, 3, 3, 2, 4, 4, 3, 2, 2]) {
            0 => {
                let n = big_len(self.g, rest);
                self.log.push_str(&format!(" peek({n})"));
                let w = ahead(n);
                let g = buf.peek_bytes(n).map(|x| x.to_vec());
                self.fixed(g, w, m, 0)?;
            }
            1 => {
                let n = big_len(self.g, rest);
                self.log.push_str(&format!(" bytes({n})"));
                let w = ahead(n);
                let g = buf.extract_bytes(n).map(|x| x.to_vec());
                self.fixed(g, w, m, n)?;
            }
            2 => {
                self.log.push_str(" u8");
                let w = ahead(1).map(|b| b[0]);
                self.fixed(buf.extract_u8(), w, m, 1)?;
            }
            3 => {
                self.log.push_str(" u16");
                let w = ahead(2).map(|b| (b[0] as u16) * 256 + b[1] as u16);
                self.fixed(buf.extract_u16(), w, m, 2)?;
            }
            4 => {
                self.log.push_str(" u32");
                let w = ahead(4).map(|b| b.iter().fold(0u32, |a, x| a * 256 + *x as u32));
                self.fixed(buf.extract_u32(), w, m, 4)?;
            }
            5 => {
                let n = big_len(self.g, rest);
                self.log.push_str(&format!(" advance({n})"));
                let w = ahead(n).map(|_| ());
                self.fixed(buf.advance(n), w, m, n)?;
            }
            6 => {
                let n = big_len(self.g, m.b.len());
                self.log.push_str(&format!(" seek({n})"));
                match buf.set_position(n) {
                    Ok(()) => {
                        ensure!(n <= m.b.len(), "{}: accepted in a buffer of {} octets", self.log, m.b.len());
                        m.pos = n;
                        self.ok += 1;
                    }
                    Err(_) => {
                        ensure!(n > m.b.len(), "{}: rejected in a buffer of {} octets", self.log, m.b.len());
                        self.failed += 1;
                    }
                }
            }
            7 => {
                // numbers converted to codes
                self.log.push_str(" code");
                let w = ahead(2).map(|b| u16::from_be_bytes([b[0], b[1]]));
                let got = match self.g.s.below(3) {
                    0 => buf.extract_u16_as::<QType>().map(u16::from),
                    1 => buf.extract_u16_as::<QClass>().map(u16::from),
                    _ => buf.extract_u16_as::<RecordType>().map(u16::from),
                };
                match (got, w) {
                    (Ok(g), Some(w)) => {
                        // the top bit of a class is not part of it
                        ensure!(g == w || g == w & 0x7fff, "{}: {w} is read as {g}", self.log);
                        m.pos += 2;
                        self.ok += 1;
                    }
                    (Ok(g), None) => return Err(format!("{}: {g} is read, but there is nothing", self.log)),
                    (Err(_), Some(_)) => {
                        let p = buf.position();
                        ensure!(p == m.pos || p == m.pos + 2, "{}: cursor is at {p} after an unassigned code at {}", self.log, m.pos);
                        m.pos = p;
                        self.failed += 1;
                    }
                    (Err(_), None) => self.failed += 1,
                }
            }
            8 => {
                self.log.push_str(" chars");
                let len = m.b.get(m.pos).map(|l| *l as usize);
                let w = len.and_then(|l| ahead(l + 1)).map(|b| b[1..].to_vec());
                match (buf.extract_character_string(), w) {
                    (Ok(g), Some(w)) => {
                        ensure!(g == w, "{}: returns {}, expected {}", self.log, hex(&g), hex(&w));
                        m.pos += 1 + w.len();
                        self.ok += 1;
                    }
                    (Err(_), None) => self.resync(buf, m)?,
                    (g, w) => return Err(format!("{}: returns {:?}, expected {:?}", self.log, Short(&g), Short(&w))),
                }
            }
            9 => {
                self.log.push_str(" string");
                let len = m.b.get(m.pos).map(|l| *l as usize);
                let w = len.and_then(|l| ahead(l + 1)).map(|b| b[1..].to_vec());
                match (buf.extract_string(), w) {
                    (Ok(g), Some(w)) => {
                        ensure!(g.as_bytes() == &w[..], "{}: returns {g:?}, expected {}", self.log, hex(&w));
                        m.pos += 1 + w.len();
                        self.ok += 1;
                    }
                    (Err(_), None) => self.resync(buf, m)?,
                    // not text
                    (Err(_), Some(w)) if std::str::from_utf8(&w).is_err() => self.resync(buf, m)?,
                    (g, w) => return Err(format!("{}: returns {:?}, expected {:?}", self.log, Short(&g), Short(&w))),
                }
            }
            10 => {
                self.log.push_str(" name");
                match (buf.extract_fqdn(), decompress(m.b, m.pos)) {
                    (Ok(f), Verdict::Name(n, after, _)) => {
                        ensure!(unfq(&f) == n, "{}: returns {}, expected {}", self.log, show_name(&unfq(&f)), show_name(&n));
                        m.pos = after;
                        self.ok += 1;
                    }
                    (_, Verdict::Grey) | (Err(_), Verdict::Reject(_)) => self.resync(buf, m)?,
                    (g, w) => return Err(format!("{}: returns {:?}, expected {:?}", self.log, Short(&g), Short(&w))),
                }
            }
            11 if depth < 3 => {
                let n = big_len(self.g, rest);
                self.log.push_str(&format!(" sub({n})["));
                match buf.sub_buffer(n) {
                    Ok(mut sub) => {
                        ensure!(n <= rest, "{}: sub-buffer of {n} octets, but only {rest} are left", self.log);
                        let mut c = Cursor {
                            b: &m.b[..m.pos + n],
                            pos: m.pos,
                        };
                        self.same(&sub, &c)?;
                        self.run(&mut sub, &mut c, depth + 1)?;
                        self.ok += 1;
                    }
                    Err(_) => {
                        ensure!(n > rest, "{}: sub-buffer of {n} octets is refused, {rest} are left", self.log);
                        self.failed += 1;
                    }
                }
                self.log.push(']');
            }
            _ => {
                // reading everything, then asking for more
                self.log.push_str(" drain");
                let g = buf.extract_bytes(rest).map(|x| x.to_vec());
                let w = ahead(rest);
                self.fixed(g, w, m, rest)?;
                self.same(buf, m)?;
                ensure!(buf.extract_u8().is_err() && buf.extract_u16().is_err() && buf.extract_u32().is_err(), "{}: reads beyond the end", self.log);
                ensure!(buf.peek_bytes(1).is_err() && buf.advance(1).is_err(), "{}: goes beyond the end", self.log);
                ensure!(buf.peek_bytes(0).is_ok() && buf.advance(0).is_ok(), "{}: nothing does not fit", self.log);
                self.same(buf, m)?;
                let back = self.g.s.below(m.b.len() as u64 + 1) as usize;
                buf.set_position(back).map_err(|e| format!("{}: set_position({back}) fails: {e:?}", self.log))?;
                m.pos = back;
            }
        }
        Ok(())
    }
}

fn c10_history(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let b = match idx % 3 {
        0 => {
            let n = g.s.draw(41, |r| r.below(41)) as usize;
            g.bytes_len(n)
        }
        1 => {
            // strings, names and codes
            let mut b = Vec::new();
            let n = 1 + g.s.below(6);
            for _ in 0..n {
                match g.s.below(4) {
                    0 => {
                        let t = g.text(30);
                        b.push(t.len() as u8);
                        b.extend(t.into_bytes());
                    }
                    1 => b.extend(encode_name(&g.name())),
                    2 => b.extend([0, g.u8()]),
                    _ => b.extend([0xc0, g.s.below(b.len() as u64 + 2) as u8]),
                }
            }
            b
        }
        _ => g.blob(300),
    };
    let mut buf = DnsBuffer::from(&b[..]);
    let mut m = Cursor { b: &b, pos: 0 };
    let mut c = C10 {
        g: &mut g,
        ctx,
        log: String::new(),
        ok: 0,
        failed: 0,
    };
    c.same(&buf, &m)?;
    let r = c.run(&mut buf, &mut m, 0);
    let (ok, failed, log) = (c.ok, c.failed, c.log);
    r?;
    if ok > 0 && failed > 0 {
        ctx.nontrivial_bytes(&[log.as_bytes(), &b].concat());
    }
    ctx.sample(|| format!("{} octets:{log}", b.len()));
    Ok(())
}

/// Buffers of special sizes.
fn c10_sizes(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let n = [0usize, 1, 2, 3, 4, 5, 255, 256, 257, 511, 512, 16383, 16384, 65535, 65536, 65537, 70000][(idx % 17) as usize];
    let b = fill(idx, n);
    let mut g = G::new(s);
    let mut buf = DnsBuffer::from(&b[..]);
    let mut m = Cursor { b: &b, pos: 0 };
    let mut c = C10 {
        g: &mut g,
        ctx,
        log: format!("[{n}]"),
        ok: 0,
        failed: 0,
    };
    let r = c.run(&mut buf, &mut m, 0);
    let (ok, failed, log) = (c.ok, c.failed, c.log);
    r?;
    if ok > 0 && failed > 0 {
        ctx.nontrivial_bytes(&[log.as_bytes(), &b[..b.len().min(50)]].concat());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C15

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "questions, records and messages with the top bit of class fields set, cleared and toggled; with multicast support the setting has to be that bit and nothing else, without it the bit has to be ignored, EDNS payload sizes keep 16 bits; non-trivial: the bit is set in at least one entry; distinct by octets",
        phases: vec![
            phase("classes", 256, 256, c15_classes),
            phase("payload", 128, 128, c15_payload),
            phase("message", 60000, 600000, c15_message),
            phase("toggle", 90000, 900000, c15_toggle),
            phase("history", 40000, 400000, c15_history),
        ],
    }
}

/// Every class word in a question and in a record.
fn c15_classes(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let name = g.name();
    for low in 0..256u16 {
        let w = (idx as u16) << 8 | low;
        ctx.eval();
        if w & 0x8000 != 0 {
            ctx.nontrivial(w as u64);
        }
        let mut b = encode_name(&name);
        let at = b.len() + 2;
        b.extend([0, 1]);
        b.extend(w.to_be_bytes());
        let mut buf = DnsBuffer::from(&b[..]);
        let q = Question::try_from(&mut buf);
        let known = [1, 2, 3, 4, 254, 255].contains(&(w & 0x7fff));
        match &q {
            Ok(q) => {
                ensure!(known, "question with class word {w:04x} is accepted");
                ensure!(qclass_code(q.class()) == w & 0x7fff, "class word {w:04x} of a question is read as {:?}", q.class());
                #[cfg(feature = "mdns")]
                ensure!(q.unicast_response() == (w & 0x8000 != 0), "class word {w:04x}: unicast response is {}", q.unicast_response());
                let mut want = b.clone();
                if !HAS_MDNS {
                    want[at] &= 0x7f;
                }
                ensure!(q.to_bytes() == want, "question with class word {w:04x} is written as {}", hex(&q.to_bytes()));
            }
            Err(e) => ensure!(!known, "question with class word {w:04x} is rejected: {e:?}"),
        }
        // record
        b.extend([0, 0, 0, 5, 0, 4, 1, 2, 3, 4]);
        let mut buf = DnsBuffer::from(&b[..]);
        let r = ResourceRecord::try_from(&mut buf).map_err(|e| format!("record with class word {w:04x} is rejected: {e:?}"))?;
        ensure!(rclass_code(r.class()) == w & 0x7fff, "class word {w:04x} of a record is read as {:?}", r.class());
        #[cfg(feature = "mdns")]
        ensure!(r.cache_flush() == (w & 0x8000 != 0), "class word {w:04x}: cache flush is {}", r.cache_flush());
        let mut want = b.clone();
        if !HAS_MDNS {
            want[at] &= 0x7f;
        }
        ensure!(r.to_bytes() == want, "record with class word {w:04x} is written as {}", hex(&r.to_bytes()));
        // with and without the bit: same type, class, time to live and data
        let mut other = b.clone();
        other[at] ^= 0x80;
        let mut buf = DnsBuffer::from(&other[..]);
        let o = ResourceRecord::try_from(&mut buf).map_err(|e| format!("record with class word {:04x} is rejected: {e:?}", w ^ 0x8000))?;
        ensure!(
            o.class() == r.class() && o.name() == r.name() && o.data() == r.data() && o.time_to_live() == r.time_to_live(),
            "the top bit of class word {w:04x} changes other parts of the record"
        );
        if !HAS_MDNS {
            ensure!(o == r, "the top bit of class word {w:04x} is not ignored");
        }
    }
    Ok(())
}

/// Every payload size.
fn c15_payload(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let rd = g.rdata(41);
    let data = build_rd(&rd);
    let name = g.name();
    let ttl = g.u32();
    for k in 0..512u16 {
        let w = (idx as u16) << 9 | k;
        ctx.eval();
        if w & 0x8000 != 0 {
            ctx.nontrivial(1 << 20 | w as u64);
        }
        let r = ResourceRecord::new(fq(&name), RecordType::OPT, RecordClass::UdpPayloadSize(w), ttl, data.clone());
        let b = r.to_bytes();
        let at = encode_name(&name).len() + 2;
        ensure!(b[at..at + 2] == w.to_be_bytes(), "payload size {w} is written as {}", hex(&b[at..at + 2]));
        let mut buf = DnsBuffer::from(&b[..]);
        let back = ResourceRecord::try_from(&mut buf).map_err(|e| format!("OPT record with payload size {w} is rejected: {e:?}"))?;
        ensure!(
            *back.class() == RecordClass::UdpPayloadSize(w),
            "payload size {w} is read as {:?}",
            back.class()
        );
        ensure!(back == r, "OPT record with payload size {w} changes in a round trip");
        #[cfg(feature = "mdns")]
        {
            ensure!(!back.cache_flush(), "OPT record with payload size {w} has the cache flush bit");
            let mut c = back.clone();
            c.set_cache_flush(false);
            ensure!(c.to_bytes() == b, "clearing cache flush changes payload size {w}");
        }
        let mut p = Packet::default();
        p.add_additional(r);
        for b in [p.to_bytes(), p.to_bytes_compressed()] {
            let d = decode(&b).map_err(|e| format!("message with payload size {w} is rejected: {e:?}"))?;
            ensure!(
                *d.additionals()[0].class() == RecordClass::UdpPayloadSize(w),
                "payload size {w} in a message is read as {:?}",
                d.additionals()[0].class()
            );
            ensure!(d == p, "message with payload size {w} changes in a round trip");
        }
    }
    Ok(())
}

/// Top bits set on the wire.
fn c15_message(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.mdns = false;
        g.any_message()
    };
    let e = encode(&m, &mut Policy::Random(s), true);
    let mut b = e.bytes.clone();
    let mut want = m.clone();
    let mut any = false;
    for (i, (_, end)) in e.q.iter().enumerate() {
        if s.bool() {
            b[end - 2] |= 0x80;
            want.q[i].unicast = HAS_MDNS;
            any = true;
        }
    }
    let mut k = 0;
    for sec in 0..3 {
        for r in want.s[sec].iter_mut() {
            if r.rd.code() != 41 && s.bool() {
                b[e.r[k].fixed + 2] |= 0x80;
                r.flush = HAS_MDNS;
                any = true;
            }
            k += 1;
        }
    }
    ctx.eval();
    if any {
        ctx.nontrivial_bytes(&b);
    }
    let p = decode(&b).map_err(|e| format!("message is rejected: {e:?}"))?;
    check_packet(&p, &want)?;
    ctx.sample(|| hex(&b[..b.len().min(120)]));
    if !HAS_MDNS {
        let d = decode(&e.bytes).map_err(|e| format!("message is rejected: {e:?}"))?;
        ensure!(d == p, "top bits of class fields are not ignored");
    }
    for b in [p.to_bytes(), p.to_bytes_compressed()] {
        let d = decode(&b).map_err(|e| format!("re-serialised message is rejected: {e:?}"))?;
        check_packet(&d, &want)?;
    }
    Ok(())
}

/// The settings survive every edit of the message that is not about them.
fn c15_history(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    if idx % 4 != 0 {
        g.types = Some(vec![1, 12, 41]);
    }
    let mut e = Edit::start(&mut g)?;
    let n = 2 + g.s.below(10);
    for _ in 0..n {
        e.step(&mut g)?;
        ctx.eval();
        c15_bits(&e.p, &e.m).map_err(|w| format!("{w} after {:?}", e.log))?;
    }
    let b = if g.s.bool() { e.p.to_bytes() } else { e.p.to_bytes_compressed() };
    let d = decode(&b).map_err(|w| format!("{:?}: rejected: {w:?}", e.log))?;
    c15_bits(&d, &e.m).map_err(|w| format!("{w} after {:?} and a round trip", e.log))?;
    if e.m.q.iter().any(|q| q.unicast) || e.m.records().any(|r| r.flush) {
        ctx.nontrivial_bytes(&b);
    }
    ctx.sample(|| format!("{:?}", e.log));
    Ok(())
}

#[allow(unused_variables)]
fn c15_bits(p: &Packet, m: &MMsg) -> Res {
    #[cfg(feature = "mdns")]
    {
        let got: Vec<bool> = p.questions().iter().map(|q| q.unicast_response()).collect();
        let want: Vec<bool> = m.q.iter().map(|q| q.unicast).collect();
        ensure!(got == want, "unicast response of the questions is {got:?}, expected {want:?}");
        for (i, v) in [p.answers(), p.authorities(), p.additionals()].into_iter().enumerate() {
            let got: Vec<bool> = v.iter().map(|r| r.cache_flush()).collect();
            let want: Vec<bool> = m.s[i].iter().map(|r| r.flush).collect();
            ensure!(got == want, "cache flush of the records of section {i} is {got:?}, expected {want:?}");
        }
    }
    // payload sizes are whole words, with or without the setting
    for (i, v) in [p.answers(), p.authorities(), p.additionals()].into_iter().enumerate() {
        for (r, want) in v.iter().zip(&m.s[i]) {
            if want.rd.code() == 41 {
                ensure!(*r.class() == RecordClass::UdpPayloadSize(want.class), "payload size {} became {:?}", want.class, r.class());
            }
        }
    }
    Ok(())
}

/// Settings toggled with the setters, among other changes.
fn c15_toggle(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    if idx % 2 == 0 {
        g.types = Some(vec![1, 12, 16, 33, 41]);
    }
    g.mdns = false;
    #[allow(unused_mut)]
    let mut m = g.any_message();
    let p = build(&m, idx);
    ctx.eval();
    // off by default
    for q in p.questions() {
        let b = q.to_bytes();
        ensure!(b[b.len() - 2] & 0x80 == 0, "top bit of the class is set in a new question");
    }
    check_packet(&p, &m)?;
    #[cfg(feature = "mdns")]
    {
        let mut p = p;
        for q in p.questions() {
            ensure!(!q.unicast_response(), "unicast response is on in a new question");
        }
        for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
            ensure!(!r.cache_flush(), "cache flush is on in a new record");
        }
        let plain = |m: &MMsg| encode(m, &mut Policy::Plain, true);
        let mut log = String::new();
        let steps = 1 + g.s.below(6);
        for _ in 0..steps {
            let sec = g.s.below(4) as usize;
            let on = g.s.below(3) != 0;
            if sec == 3 {
                if m.q.is_empty() {
                    continue;
                }
                let i = g.s.below(m.q.len() as u64) as usize;
                log.push_str(&format!(" question {i} {on}"));
                let q = &mut p.questions_mut()[i];
                let old = q.clone();
                q.set_unicast_response(on);
                ensure!(q.unicast_response() == on, "unicast response reads {} after setting it to {on}", q.unicast_response());
                ensure!(
                    q.name() == old.name() && q.query_type() == old.query_type() && q.class() == old.class(),
                    "setting unicast response changes other parts of the question"
                );
                m.q[i].unicast = on;
                // other setters keep it
                if g.s.bool() {
                    let n = g.question();
                    match g.s.below(3) {
                        0 => {
                            log.push_str(" name");
                            q.set_name(fq(&n.name));
                            m.q[i].name = n.name;
                        }
                        1 => {
                            log.push_str(&format!(" type {}", n.qtype));
                            q.set_query_type(qtype(n.qtype));
                            m.q[i].qtype = n.qtype;
                        }
                        _ => {
                            log.push_str(&format!(" class {}", n.qclass));
                            q.set_class(qclass(n.qclass));
                            m.q[i].qclass = n.qclass;
                        }
                    }
                    ensure!(q.unicast_response() == on, "another setter changes unicast response:{log}");
                }
            } else {
                if m.s[sec].is_empty() {
                    continue;
                }
                let i = g.s.below(m.s[sec].len() as u64) as usize;
                if m.s[sec][i].rd.code() == 41 {
                    continue;
                }
                log.push_str(&format!(" record {sec}/{i} {on}"));
                let mut v = match sec {
                    0 => p.take_answers(),
                    1 => p.take_authorities(),
                    _ => p.take_additionals(),
                };
                let old = v[i].clone();
                v[i].set_cache_flush(on);
                ensure!(v[i].cache_flush() == on, "cache flush reads {} after setting it to {on}", v[i].cache_flush());
                ensure!(
                    v[i].name() == old.name()
                        && v[i].record_type() == old.record_type()
                        && v[i].class() == old.class()
                        && v[i].data() == old.data()
                        && v[i].time_to_live() == old.time_to_live(),
                    "setting cache flush changes other parts of the record"
                );
                m.s[sec][i].flush = on;
                // other setters keep it
                if g.s.bool() {
                    log.push_str(" edit");
                    loop {
                        edit_record(&mut g, &mut v[i], &mut m.s[sec][i])?;
                        if m.s[sec][i].flush == on {
                            break;
                        }
                        // that was the setting itself
                        m.s[sec][i].flush = on;
                        v[i].set_cache_flush(on);
                    }
                    ensure!(v[i].cache_flush() == on, "another setter changes cache flush:{log}");
                }
                match sec {
                    0 => p.set_answers(v),
                    1 => p.set_authorities(v),
                    _ => p.set_additionals(v),
                }
            }
        }
        // exactly these bits differ from the message without them
        let mut off = m.clone();
        off.q.iter_mut().for_each(|q| q.unicast = false);
        off.s.iter_mut().flatten().for_each(|r| r.flush = false);
        let off = build(&off, idx);
        let before = off.to_bytes();
        let before_c = off.to_bytes_compressed();
        let e = plain(&m);
        let set: Vec<usize> = e
            .q
            .iter()
            .zip(&m.q)
            .filter(|(_, q)| q.unicast)
            .map(|((_, end), _)| end - 2)
            .chain(e.r.iter().zip(m.records()).filter(|(_, r)| r.flush).map(|(x, _)| x.fixed + 2))
            .collect();
        let mut want = before.clone();
        for i in &set {
            want[*i] |= 0x80;
        }
        let b = p.to_bytes();
        if !set.is_empty() {
            ctx.nontrivial_bytes(&b);
        }
        ctx.sample(|| format!("{} entries:{log}", m.count()));
        ensure!(b == want, "toggling {log} changes the message: {}", first_diff(&b, &want));
        let c = p.to_bytes_compressed();
        ensure!(c.len() == before_c.len(), "toggling {log} changes the length of the compressed message");
        let bits: u32 = c.iter().zip(&before_c).map(|(x, y)| (x ^ y).count_ones()).sum();
        ensure!(
            bits as usize == set.len() && c.iter().zip(&before_c).all(|(x, y)| (x ^ y) & 0x7f == 0),
            "toggling {log} changes {bits} bits of the compressed message, expected {}",
            set.len()
        );
        for b in [b, c] {
            let d = decode(&b).map_err(|e| format!("message with {log} is rejected: {e:?}"))?;
            check_packet(&d, &m)?;
            ensure!(d.questions() == p.questions() && d.answers() == p.answers(), "message with {log} changes in a round trip");
        }
    }
    Ok(())
}
