//! C16 and C20: comparisons between builds, processes, threads and ways to build a value.

use super::wire::*;
use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::Src;
use maybe_dns::rdata::*;
use maybe_dns::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::convert::TryFrom;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

// ---------------------------------------------------------------------------------------------
// what a build says about an input

/// Meaning of a message in terms of numbers and octets only, so that builds can be compared.
/// `mdns`: with the bits of multicast DNS.
fn describe(p: &Packet, mdns: bool) -> String {
    let _ = mdns;
    let h = p.header();
    let mut o = format!(
        "id {} rd {} tc {} aa {} op {:?} qr {} rc {:?} ra {} counts {:?}\n",
        p.id(),
        p.recursion_desired(),
        p.truncation(),
        p.authoritative_answer(),
        p.opcode(),
        p.query_response(),
        p.response_code(),
        p.recursion_available(),
        header_counts(h)
    );
    for q in p.questions() {
        o.push_str(&format!("q {:?} {} {}", unfq(q.name()), qtype_code(q.query_type()), qclass_code(q.class())));
        #[cfg(feature = "mdns")]
        if mdns && q.unicast_response() {
            o.push_str(" QU");
        }
        o.push('\n');
    }
    for (s, v) in [p.answers(), p.authorities(), p.additionals()].into_iter().enumerate() {
        for r in v {
            o.push_str(&format!(
                "r{s} {:?} {} {} {} {}",
                unfq(r.name()),
                rtype_code(r.record_type()),
                rclass_code(r.class()),
                r.time_to_live(),
                hex(&r.data().to_bytes())
            ));
            // printing a hash map depends on its order
            if !matches!(r.data(), RecordData::OPT(_)) {
                o.push_str(&format!(" {:?}", r.data()));
            }
            #[cfg(feature = "mdns")]
            if mdns && r.cache_flush() {
                o.push_str(" flush");
            }
            o.push('\n');
        }
    }
    o
}

/// Without the bits of multicast DNS.
fn without_mdns(p: &Packet) -> Packet {
    #[allow(unused_mut)]
    let mut p = p.clone();
    #[cfg(feature = "mdns")]
    {
        for q in p.questions_mut() {
            q.set_unicast_response(false);
        }
        let clear = |mut v: Vec<ResourceRecord>| {
            for r in &mut v {
                r.set_cache_flush(false);
            }
            v
        };
        let a = clear(p.take_answers());
        p.set_answers(a);
        let a = clear(p.take_authorities());
        p.set_authorities(a);
        let a = clear(p.take_additionals());
        p.set_additionals(a);
    }
    p
}

/// Contains something that only exists with DNSSEC support.
fn uses_dnssec(p: &Packet) -> bool {
    let t = |c: u16| DNSSEC_TYPES.contains(&c);
    p.questions().iter().any(|q| t(qtype_code(q.query_type())))
        || p.answers().iter().chain(p.authorities()).chain(p.additionals()).any(|r| {
            t(rtype_code(r.record_type()))
                || match r.data() {
                    RecordData::CSYNC(c) => c.types.iter().any(|x| t(rtype_code(x))),
                    _ => false,
                }
        })
}

#[derive(Clone, PartialEq, Default)]
struct Answer {
    /// error, if it was not accepted
    err: String,
    dnssec: bool,
    full: String,
    plain: Vec<u8>,
    comp: Vec<u8>,
    /// the same without the bits of multicast DNS
    bare: String,
    bare_plain: Vec<u8>,
    bare_comp: Vec<u8>,
    size: u64,
    /// written to the standard streams meanwhile
    output: Vec<u8>,
}

impl Answer {
    fn ok(&self) -> bool {
        self.err.is_empty()
    }
    fn write(&self) -> Vec<u8> {
        let mut o = vec![self.dnssec as u8];
        o.extend(self.size.to_le_bytes());
        for f in [
            self.err.as_bytes(),
            self.full.as_bytes(),
            &self.plain,
            &self.comp,
            self.bare.as_bytes(),
            &self.bare_plain,
            &self.bare_comp,
            &self.output,
        ] {
            o.extend((f.len() as u32).to_le_bytes());
            o.extend(f);
        }
        o
    }
    fn read(b: &[u8]) -> Answer {
        let mut pos = 9;
        let mut next = || {
            let n = u32::from_le_bytes(b[pos..pos + 4].try_into().unwrap()) as usize;
            let v = b[pos + 4..pos + 4 + n].to_vec();
            pos += 4 + n;
            v
        };
        let text = |v: Vec<u8>| String::from_utf8_lossy(&v).to_string();
        Answer {
            dnssec: b[0] != 0,
            size: u64::from_le_bytes(b[1..9].try_into().unwrap()),
            err: text(next()),
            full: text(next()),
            plain: next(),
            comp: next(),
            bare: text(next()),
            bare_plain: next(),
            bare_comp: next(),
            output: next(),
        }
    }
}

fn answer_packet(p: &Packet) -> Answer {
    let bare = without_mdns(p);
    Answer {
        err: String::new(),
        dnssec: uses_dnssec(p),
        full: describe(p, true),
        plain: p.to_bytes(),
        comp: p.to_bytes_compressed(),
        bare: describe(&bare, false),
        bare_plain: bare.to_bytes(),
        bare_comp: bare.to_bytes_compressed(),
        size: p.byte_size() as u64,
        output: vec![],
    }
}

fn answer_bytes(b: &[u8]) -> Answer {
    match decode(b) {
        Ok(p) => answer_packet(&p),
        Err(e) => Answer {
            err: format!("{e:?}"),
            ..Default::default()
        },
    }
}

/// The message a tape stands for, the same one in every build; `full`: everything this build has.
fn tape_message(s: &mut Src, full: bool) -> MMsg {
    let mut g = G::new(s);
    if !full {
        g.dnssec = false;
        g.mdns = false;
    }
    let kind = g.s.below(24);
    match kind {
        23 => g.limit_message(),
        22 => g.padded_message(),
        _ => g.message(),
    }
}

fn answer_tape(tape: Vec<u64>, full: bool) -> Answer {
    let mut s = Src::replay(tape);
    let variant = s.below(256);
    let m = tape_message(&mut s, full);
    answer_packet(&build(&m, variant))
}

fn request(kind: u8, body: &[u8]) -> Vec<u8> {
    let mut o = (body.len() as u32 + 1).to_le_bytes().to_vec();
    o.push(kind);
    o.extend(body);
    o
}

fn tape_request(tape: &[u64], full: bool) -> Vec<u8> {
    let b: Vec<u8> = tape.iter().flat_map(|v| v.to_le_bytes()).collect();
    request(if full { 2 } else { 1 }, &b)
}

/// Answers requests on standard input until it is closed. What the library writes to the standard
/// streams is caught and reported.
pub fn serve() -> i32 {
    install_panic_hook();
    let (mut out, catch) = unsafe {
        let out = libc::dup(1);
        let m = libc::memfd_create(c"streams".as_ptr(), 0);
        if m < 0 {
            return 2;
        }
        libc::dup2(m, 1);
        libc::dup2(m, 2);
        (std::fs::File::from_raw_fd(out), std::fs::File::from_raw_fd(m))
    };
    let mut seen = 0;
    let mut inp = std::io::stdin().lock();
    loop {
        let mut n = [0u8; 4];
        if inp.read_exact(&mut n).is_err() {
            return 0;
        }
        let mut b = vec![0; u32::from_le_bytes(n) as usize];
        if inp.read_exact(&mut b).is_err() {
            return 0;
        }
        let r = guarded(|| {
            with_budget(2 << 30, || match b[0] {
                0 => answer_bytes(&b[1..]),
                k => answer_tape(b[1..].chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(), k == 2),
            })
        });
        let mut a = r.unwrap_or_else(|p| Answer {
            err: format!("PANIC {p}"),
            ..Default::default()
        });
        let _ = std::io::stdout().flush();
        let len = catch.metadata().map(|m| m.len()).unwrap_or(0);
        if len > seen {
            use std::os::unix::fs::FileExt;
            let mut o = vec![0; (len - seen).min(2000) as usize];
            let _ = catch.read_exact_at(&mut o, seen);
            a.output = o;
            seen = len;
        }
        let w = a.write();
        if out.write_all(&(w.len() as u32).to_le_bytes()).is_err() || out.write_all(&w).is_err() {
            return 0;
        }
    }
}

struct Peer {
    child: Child,
    inp: Option<ChildStdin>,
    out: ChildStdout,
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.inp = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

impl Peer {
    fn start(config: &str) -> Result<Peer, String> {
        let exe = std::env::var(format!("VERIF_BIN_{config}")).map_err(|_| format!("no binary of configuration {config}"))?;
        let mut child = Command::new(exe)
            .args(["serve", "messages"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| format!("can not start the build {config}: {e}"))?;
        let inp = child.stdin.take();
        let out = child.stdout.take().unwrap();
        Ok(Peer { child, inp, out })
    }
    fn send(&mut self, req: &[u8]) -> Res {
        self.inp.as_mut().unwrap().write_all(req).map_err(|e| format!("ended unexpectedly: {e}"))
    }
    fn read(&mut self, b: &mut [u8]) -> Res {
        let mut at = 0;
        while at < b.len() {
            let mut p = libc::pollfd {
                fd: self.out.as_raw_fd(),
                events: libc::POLLIN,
                revents: 0,
            };
            if unsafe { libc::poll(&mut p, 1, 120_000) } == 0 {
                return Err("gives no answer within 120 s".into());
            }
            match self.out.read(&mut b[at..]) {
                Ok(0) => return Err("ends while it works on the input".into()),
                Ok(n) => at += n,
                Err(e) => return Err(format!("ends while it works on the input: {e}")),
            }
        }
        Ok(())
    }
    fn receive(&mut self) -> Result<Answer, String> {
        let mut n = [0; 4];
        self.read(&mut n)?;
        let mut b = vec![0; u32::from_le_bytes(n) as usize];
        self.read(&mut b)?;
        Ok(Answer::read(&b))
    }
}

thread_local! {
    static PEERS: RefCell<BTreeMap<String, Peer>> = const { RefCell::new(BTreeMap::new()) };
}

/// The answers of several builds to a request.
fn ask(configs: &[&str], req: &[u8]) -> Result<Vec<Answer>, String> {
    PEERS.with(|p| {
        let mut p = p.borrow_mut();
        let r = (|| {
            for c in configs {
                if !p.contains_key(*c) {
                    p.insert(c.to_string(), Peer::start(c)?);
                }
                p.get_mut(*c).unwrap().send(req).map_err(|e| format!("build {c} {e}"))?;
            }
            let mut v = Vec::new();
            for c in configs {
                let a = p.get_mut(*c).unwrap().receive().map_err(|e| format!("build {c} {e}"))?;
                if a.err.starts_with("PANIC") {
                    return Err(format!("build {c}: {}", a.err));
                }
                v.push(a);
            }
            Ok(v)
        })();
        if r.is_err() {
            p.clear();
        }
        r
    })
}

// ---------------------------------------------------------------------------------------------
// C16

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "the same byte strings (well-formed, mutated, random) and the same construction steps are given to all four builds in separate processes, and results are compared up to feature content; non-trivial: accepted by at least one build; distinct by octets",
        phases: vec![
            phase("mutated", 50000, 600000, c16_mutated).unguided(),
            phase("rdata", 50000, 600000, c16_rdata).unguided(),
            phase("random", 25000, 300000, c16_random).unguided(),
            phase("wellformed", 20000, 200000, c16_wellformed).unguided(),
            phase("built", 20000, 200000, c16_built).unguided(),
        ],
    }
}

const CFG: [&str; 4] = ["none", "mdns", "dnssec", "both"];

fn lines_diff(a: &str, b: &str) -> String {
    for (x, y) in a.lines().zip(b.lines()) {
        if x != y {
            return format!("{:?} / {:?}", Short(x), Short(y));
        }
    }
    "different number of entries".into()
}

fn same_message(sa: &str, a: &Answer, sb: &str, b: &Answer) -> Res {
    ensure!(a.bare == b.bare, "builds {sa} and {sb} read the same message differently: {}", lines_diff(&a.bare, &b.bare));
    ensure!(a.bare_plain == b.bare_plain, "builds {sa} and {sb} write the same message differently: {}", first_diff(&a.bare_plain, &b.bare_plain));
    ensure!(a.bare_comp == b.bare_comp, "builds {sa} and {sb} compress the same message differently: {}", first_diff(&a.bare_comp, &b.bare_comp));
    ensure!(a.size == b.size, "builds {sa} and {sb} report sizes {} and {}", a.size, b.size);
    Ok(())
}

fn dnssec_error(e: &str) -> bool {
    DNSSEC_TYPES.iter().any(|t| e == format!("InvalidType({t})"))
}

fn c16_compare(a: &[Answer], ctx: &mut Ctx) -> Res {
    ctx.eval();
    for (small, big) in [(0, 1), (0, 2), (0, 3), (1, 3), (2, 3)] {
        let (s, b) = (&a[small], &a[big]);
        let (sn, bn) = (CFG[small], CFG[big]);
        let extra_dnssec = big >= 2 && small < 2;
        if s.ok() {
            ensure!(b.ok(), "build {sn} accepts an input that build {bn} rejects with {}", b.err);
            same_message(sn, s, bn, b)?;
        } else if b.ok() {
            ensure!(extra_dnssec && b.dnssec, "build {bn} accepts an input without DNSSEC content that build {sn} rejects with {}", s.err);
        } else if !(extra_dnssec && dnssec_error(&s.err)) {
            ensure!(s.err == b.err, "build {sn} rejects an input with {}, build {bn} with {}", s.err, b.err);
        }
        if s.ok() && small % 2 == big % 2 {
            // the same support for multicast DNS
            ensure!(s.full == b.full, "builds {sn} and {bn} read the same message differently: {}", lines_diff(&s.full, &b.full));
            ensure!(s.plain == b.plain, "builds {sn} and {bn} write the same message differently: {}", first_diff(&s.plain, &b.plain));
            ensure!(s.comp == b.comp, "builds {sn} and {bn} compress the same message differently: {}", first_diff(&s.comp, &b.comp));
        }
    }
    // mdns without any of its bits is like none
    if a[0].ok() && a[1].full == a[1].bare {
        ensure!(a[0].plain == a[1].plain, "builds none and mdns write the same message differently");
    }
    let n = a.iter().filter(|x| x.ok()).count();
    ctx.class(["rejected by all", "accepted by one build", "accepted by the builds with DNSSEC", "accepted by three builds", "accepted by all"][n]);
    Ok(())
}

fn c16_bytes(b: &[u8], ctx: &mut Ctx) -> Res {
    let a = ask(&CFG, &request(0, b))?;
    if a.iter().any(|x| x.ok()) {
        ctx.nontrivial_bytes(b);
        if b.len() < 100 {
            ctx.sample(|| format!("accepted {}", hex(b)));
        }
    }
    c16_compare(&a, ctx).map_err(|e| format!("{e} (input {})", hex(&b[..b.len().min(200)])))
}

fn c16_mutated(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = any_bytes(s, idx);
    c16_bytes(&b, ctx)
}
fn c16_rdata(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = rdata_bytes(s, idx);
    c16_bytes(&b, ctx)
}
fn c16_random(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = random_bytes(s, idx);
    c16_bytes(&b, ctx)
}
fn c16_wellformed(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.dnssec = idx % 3 == 0;
        g.mdns = idx % 2 == 0;
        g.any_message()
    };
    let e = encode(&m, &mut Policy::Random(s), true);
    c16_bytes(&e.bytes, ctx)
}
fn c16_built(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let at = s.tape.len();
    let _variant = s.below(256);
    let m = tape_message(s, false);
    let a = ask(&CFG, &tape_request(&s.tape[at..], false))?;
    ctx.nontrivial_bytes(&a[0].plain);
    ctx.sample(|| show_msg(&m));
    ensure!(a[3].bare == describe(&without_mdns(&build(&m, 0)), false), "the builds were given different messages");
    c16_compare(&a, ctx)
}

// ---------------------------------------------------------------------------------------------
// C20

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "values are built in different ways and orders, cloned, decoded, serialised repeatedly, by several threads and in another process, and compared; neighbouring values are compared with their octets; output to the standard streams is caught; non-trivial: a message with a record and a name of two labels or more, or an option or type set with two elements or more; distinct by octets",
        phases: vec![
            phase("ways", 20000, 600000, c20_ways),
            phase("sets", 20000, 600000, c20_sets),
            phase("neighbours", 30000, 900000, c20_neighbours),
            phase("octets", 20000, 600000, c20_octets),
            phase("threads", 1500, 40000, c20_threads),
            phase("process", 10000, 300000, c20_process).unguided(),
            phase("silent", 20000, 500000, c20_silent),
        ],
    }
}

fn pure(what: &str, p: &Packet) -> Result<(Vec<u8>, Vec<u8>), String> {
    let before = p.clone();
    let text = (!has_opt(p)).then(|| format!("{p:?}"));
    let n = p.byte_size();
    let plain = p.to_bytes();
    let comp = p.to_bytes_compressed();
    ensure!(p.to_bytes() == plain, "{what}: a second plain serialisation differs");
    ensure!(p.to_bytes_compressed() == comp, "{what}: a second compressed serialisation differs: {}", first_diff(&comp, &p.to_bytes_compressed()));
    ensure!(p.to_bytes() == plain, "{what}: plain serialisation after a compressed one differs");
    ensure!(p.byte_size() == n, "{what}: the size changes by serialising");
    ensure!(*p == before, "{what}: serialising changes the value");
    ensure!(p.header() == before.header(), "{what}: serialising changes the header");
    if let Some(t) = text {
        ensure!(t == format!("{p:?}"), "{what}: serialising changes the value as printed");
    }
    ensure!(before.to_bytes() == plain && before.to_bytes_compressed() == comp, "{what}: a copy serialises differently");
    Ok((plain, comp))
}

fn has_opt(p: &Packet) -> bool {
    p.answers().iter().chain(p.authorities()).chain(p.additionals()).any(|r| matches!(r.data(), RecordData::OPT(_)))
}

fn interesting(m: &MMsg, ctx: &mut Ctx, b: &[u8]) {
    ctx.eval();
    if msg_nontrivial(m) {
        ctx.nontrivial_bytes(b);
    }
}

fn c20_ways(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let (v1, v2) = (s.below(256), s.below(256));
    let m = if idx % 40 == 0 { G::new(s).limit_message() } else { G::new(s).any_message() };
    let p = build(&m, v1);
    let (plain, comp) = pure("message", &p)?;
    interesting(&m, ctx, &plain);
    ctx.sample(|| show_msg(&m));
    let q = build(&m, v2);
    ensure!(p == q, "the same message, built in two ways ({v1}, {v2}), is not equal");
    let (qp, qc) = pure("message built differently", &q)?;
    ensure!(qp == plain, "equal messages serialise differently: {}", first_diff(&plain, &qp));
    ensure!(qc == comp, "equal messages compress differently: {}", first_diff(&comp, &qc));
    for (what, b) in [("plain", &plain), ("compressed", &comp)] {
        let d = decode(b).map_err(|e| format!("{what} form is rejected: {e:?}"))?;
        if d == p {
            let (dp, dc) = pure("decoded message", &d)?;
            ensure!(dp == plain, "message decoded from its {what} form serialises differently: {}", first_diff(&plain, &dp));
            ensure!(dc == comp, "message decoded from its {what} form compresses differently: {}", first_diff(&comp, &dc));
        }
    }
    // another message in between must not matter
    let other = build(&G::new(s).message(), 0);
    let _ = (other.to_bytes_compressed(), other.to_bytes());
    ensure!(p.to_bytes_compressed() == comp, "compressing another message changes the result");
    // parts on their own
    for r in p.answers().iter().chain(p.authorities()).chain(p.additionals()) {
        let c = r.clone();
        let b = r.to_bytes();
        ensure!(r.to_bytes() == b && c.to_bytes() == b && *r == c, "record serialises differently the second time");
        ensure!(r.data().to_bytes() == r.data_raw() && *r == c, "record data serialises differently the second time");
    }
    Ok(())
}

fn shuffled<T: Clone>(s: &mut Src, v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    for i in (1..v.len()).rev() {
        let j = s.below(i as u64 + 1) as usize;
        v.swap(i, j);
    }
    v
}

/// Options and type sets filled in different orders, with removals in between.
fn c20_sets(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    ctx.eval();
    match idx % 3 {
        0 => {
            let opts: Vec<(u16, Vec<u8>)> = {
                let mut g = G::new(s);
                let mut o: BTreeMap<u16, Vec<u8>> = BTreeMap::new();
                let max = if g.s.chance(1, 30) { 300 } else { 12 };
                while g.s.more(o.len(), max as u64 / 2, max) {
                    let k = g.u16();
                    let v = g.blob(40);
                    o.insert(k, v);
                }
                o.into_iter().collect()
            };
            let mut all = Vec::new();
            for round in 0..4 {
                let mut h: HashMap<u16, Vec<u8>> = if round % 2 == 0 { HashMap::new() } else { HashMap::with_capacity(1000) };
                let junk: Vec<u16> = (0..round * 5).map(|_| s.below(65536) as u16).collect();
                for k in &junk {
                    h.insert(*k, vec![1]);
                }
                for (k, v) in shuffled(s, &opts) {
                    h.insert(k, v);
                }
                for k in &junk {
                    if !opts.iter().any(|o| o.0 == *k) {
                        h.remove(k);
                    }
                }
                all.push(Opt(h));
            }
            let b = all[0].to_bytes();
            if opts.len() > 1 {
                ctx.nontrivial_bytes(&b);
            }
            ctx.sample(|| format!("options {}", hex(&b)));
            for o in &all {
                ensure!(*o == all[0], "equal options are not equal");
                ensure!(o.to_bytes() == b && o.clone().to_bytes() == b, "equal options serialise differently: {} / {}", hex(&b), hex(&o.to_bytes()));
                let r = ResourceRecord::new(FQDN::default(), RecordType::OPT, RecordClass::UdpPayloadSize(1232), 0, RecordData::OPT(o.clone()));
                let mut p = Packet::new_query(1, false);
                p.add_additional(r);
                let (x, y) = pure("message with options", &p)?;
                ensure!(x.ends_with(&b) && y.ends_with(&b), "options are written differently in a message");
            }
        }
        1 => {
            let t: Vec<u16> = G::new(s).type_set().into_iter().collect();
            let mut all = Vec::new();
            for _ in 0..3 {
                let mut set = BTreeSet::new();
                for x in shuffled(s, &t) {
                    set.insert(rtype(x));
                }
                let mut c = Csync::default();
                c.types = set;
                all.push(c);
            }
            let b = all[0].to_bytes();
            if t.len() > 1 {
                ctx.nontrivial_bytes(&b);
            }
            for c in &all {
                ensure!(*c == all[0] && c.to_bytes() == b, "equal type sets serialise differently");
            }
        }
        _ => {
            // names from text, labels and octets
            let n = G::new(s).name();
            let w = encode_name(&n);
            ctx.nontrivial_bytes(&w);
            let a = fq(&n);
            let b = FQDN::try_from(&mut DnsBuffer::from(&w[..])).map_err(|e| format!("name is rejected: {e:?}"))?;
            let c = FQDN::from(&n[..]);
            let mut d = FQDN::default();
            let ascii = n.iter().all(|l| l.iter().all(|c| c.is_ascii_alphanumeric()));
            if ascii {
                for l in &n {
                    d.append_label(std::str::from_utf8(l).unwrap());
                }
            } else {
                d = a.clone();
            }
            for x in [&b, &c, &d] {
                ensure!(*x == a && x.to_bytes() == a.to_bytes() && x.to_bytes() == w, "equal names serialise differently");
            }
        }
    }
    Ok(())
}

/// A message and one that is nearly the same: equal exactly if their octets are.
fn c20_neighbours(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let at = s.tape.len();
    let m = {
        let mut g = G::new(s);
        if idx % 2 == 0 {
            g.types = Some(vec![type_of(idx / 2)]);
        }
        g.message()
    };
    let tape = s.tape[at..].to_vec();
    let p = build(&m, 0);
    let b = p.to_bytes();
    let c = p.to_bytes_compressed();
    for _ in 0..4 {
        let mut t = tape.clone();
        if t.is_empty() {
            break;
        }
        for _ in 0..=s.below(2) {
            let i = s.below(t.len() as u64) as usize;
            t[i] = match s.below(4) {
                0 => t[i].wrapping_add(1),
                1 => t[i].wrapping_sub(1),
                2 => 0,
                _ => t[i] ^ (1 << s.below(16)),
            };
        }
        let n = {
            let mut ts = Src::replay(t);
            let mut g = G::new(&mut ts);
            if idx % 2 == 0 {
                g.types = Some(vec![type_of(idx / 2)]);
            }
            g.message()
        };
        let q = build(&n, 0);
        ctx.eval();
        ctx.class(if p == q { "equal" } else { "different" });
        let qb = q.to_bytes();
        let fine = |m: &MMsg| m.records().all(|r| rdata_plain(&r.rd, true).len() <= 65535);
        if !fine(&m) || !fine(&n) {
            continue;
        }
        ensure!((p == q) == (b == qb), "messages are {} but their octets are {}: {} / {}", eq(p == q), eq(b == qb), show_msg(&m), show_msg(&n));
        let qc = q.to_bytes_compressed();
        ensure!((p == q) == (c == qc), "messages are {} but their compressed octets are {}: {} / {}", eq(p == q), eq(c == qc), show_msg(&m), show_msg(&n));
        if msg_nontrivial(&n) {
            ctx.nontrivial_bytes(&qb);
        }
    }
    Ok(())
}

/// Messages that differ in an octet or two, at any place: equal exactly if they are written alike.
fn c20_octets(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let m = {
        let mut g = G::new(s);
        g.types = (idx % 3 != 0).then(|| vec![type_of(idx / 3)]);
        g.big = idx % 4 == 0;
        g.message()
    };
    let mut b = encode(&m, &mut Policy::Random(s), true).bytes;
    let Ok(p) = decode(&b) else { return Ok(()) };
    let (pb, pc) = (p.to_bytes(), p.to_bytes_compressed());
    // record data makes up the largest part of most messages
    let mut seen = Vec::new();
    for _ in 0..6 {
        let i = s.below(b.len() as u64) as usize;
        let v = match s.below(4) {
            0 => b[i].wrapping_add(1),
            1 => b[i] ^ 0x20,
            2 => b[i] ^ (1 << s.below(8)),
            _ => s.below(256) as u8,
        };
        let old = std::mem::replace(&mut b[i], v);
        if let Ok(q) = decode(&b) {
            ctx.eval();
            let (qb, qc) = (q.to_bytes(), q.to_bytes_compressed());
            let e = p == q;
            ensure!(e == (q == p), "messages are equal in one direction only (octet {i} of {})", hex(&b[..b.len().min(300)]));
            ctx.class(if e { "equal" } else { "different" });
            let place = || format!("octet {i} is {old:#04x} or {v:#04x} in {}", hex(&b[..b.len().min(300)]));
            ensure!(e == (pb == qb), "messages are {} but their octets are {}: {}", eq(e), eq(pb == qb), place());
            ensure!(e == (pc == qc), "messages are {} but their compressed octets are {}: {}", eq(e), eq(pc == qc), place());
            for (other, ob) in &seen {
                ensure!((q == *other) == (qb == *ob), "messages are {} but their octets are {}: {}", eq(q == *other), eq(qb == *ob), place());
            }
            if msg_nontrivial(&m) {
                ctx.nontrivial_bytes(&qb);
            }
            if seen.len() < 2 {
                seen.push((q, qb));
            }
        }
        b[i] = if s.chance(1, 3) { v } else { old };
    }
    Ok(())
}

fn eq(b: bool) -> &'static str {
    if b {
        "equal"
    } else {
        "different"
    }
}

fn c20_threads(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let m = if idx % 10 == 0 { G::new(s).limit_message() } else { G::new(s).any_message() };
    let m2 = G::new(s).message();
    let p = build(&m, 0);
    let o = build(&m2, 0);
    let (plain, comp) = (p.to_bytes(), p.to_bytes_compressed());
    interesting(&m, ctx, &plain);
    let results = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|k| {
                let (p, o, m) = (&p, &o, &m);
                sc.spawn(move || {
                    guarded(|| {
                        if k % 2 == 1 {
                            let _ = o.to_bytes_compressed();
                        }
                        let a = (p.to_bytes(), p.to_bytes_compressed());
                        let q = build(m, k);
                        let b = (q.to_bytes(), q.to_bytes_compressed());
                        (a, b, *p == q)
                    })
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
    });
    for r in results {
        let (a, b, equal) = r?;
        ensure!(equal, "the same message built by another thread is not equal");
        ensure!(a.0 == plain && b.0 == plain, "plain serialisation by another thread differs");
        ensure!(a.1 == comp && b.1 == comp, "compressed serialisation by another thread differs");
    }
    Ok(())
}

fn own() -> &'static str {
    match (HAS_MDNS, HAS_DNSSEC) {
        (false, false) => "none",
        (true, false) => "mdns",
        (false, true) => "dnssec",
        (true, true) => "both",
    }
}

fn said(a: &Answer) -> Res {
    ensure!(a.output.is_empty(), "the library writes to the standard streams: {:?}", String::from_utf8_lossy(&a.output));
    Ok(())
}

fn c20_process(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let at = s.tape.len();
    let _variant = s.below(256);
    let m = tape_message(s, true);
    let a = ask(&[own()], &tape_request(&s.tape[at..], true))?;
    let p = build(&m, 0);
    let (plain, comp) = (p.to_bytes(), p.to_bytes_compressed());
    interesting(&m, ctx, &plain);
    ensure!(a[0].plain == plain, "another process serialises the same message differently: {}", first_diff(&plain, &a[0].plain));
    ensure!(a[0].comp == comp, "another process compresses the same message differently: {}", first_diff(&comp, &a[0].comp));
    ensure!(a[0].full == describe(&p, true), "another process reads the same message differently: {}", lines_diff(&a[0].full, &describe(&p, true)));
    said(&a[0])
}

fn c20_silent(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let b = match idx % 3 {
        0 => any_bytes(s, idx / 3),
        1 => rdata_bytes(s, idx / 3),
        _ => random_bytes(s, idx / 3),
    };
    let a = ask(&[own()], &request(0, &b))?;
    let here = answer_bytes(&b);
    ctx.eval();
    if here.ok() {
        ctx.nontrivial_bytes(&b);
    }
    said(&a[0])?;
    ensure!(a[0].err == here.err, "another process judges the same input differently: {} / {}", a[0].err, here.err);
    ensure!(a[0].full == here.full && a[0].plain == here.plain && a[0].comp == here.comp, "another process reads or writes the same input differently");
    Ok(())
}
