//! C17: canonical form of record sets.

use crate::adapt::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::src::Src;
use maybe_dns::*;

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "record sets of every type with generated owner, class, time to live and records (fresh, repeated, prefixes of each other, equal but for one octet) are encoded in several orders and brought into canonical order; the oracle sorts the encoded data itself and builds the set field by field; non-trivial: at least two records that are not in canonical order already; distinct by the encoded records in the given order",
        phases: vec![
            phase("sets", 180000, 1500000, c17_sets),
            phase("close", 180000, 1500000, c17_close),
            phase("orders", 4500, 30000, c17_orders),
            phase("many", 900, 5000, c17_many),
            phase("long", 180, 1000, c17_long),
        ],
    }
}

/// A record set as it is generated.
#[derive(Clone, Debug)]
pub struct MSet {
    pub name: Name,
    pub code: u16,
    pub class: u16,
    pub ttl: u32,
    pub recs: Vec<MR>,
}

/// The set, field by field, from the encoded data of its records.
pub fn reference(name: &Name, code: u16, class: u16, ttl: u32, data: &[Vec<u8>]) -> Vec<u8> {
    let mut sorted: Vec<&Vec<u8>> = data.iter().collect();
    sorted.sort();
    let owner = encode_name(name);
    let mut o = Vec::new();
    for d in sorted {
        o.extend_from_slice(&owner);
        o.extend_from_slice(&code.to_be_bytes());
        o.extend_from_slice(&class.to_be_bytes());
        o.extend_from_slice(&ttl.to_be_bytes());
        o.extend_from_slice(&(d.len() as u16).to_be_bytes());
        o.extend_from_slice(d);
    }
    o
}

/// The class as it is built: what has no name of its own is carried by the payload size.
pub fn set_class(m: &MSet) -> RecordClass {
    rclass(m.class, m.code == 41)
}

/// A record that is close to another one of the set.
fn related(g: &mut G, r: &MR) -> MR {
    let mut r = r.clone();
    match &mut r {
        MR::Null(b) | MR::OpenPgp(b) | MR::Dhcid(_, b) | MR::Uri(_, _, b) | MR::Sshfp(_, _, b) | MR::Tlsa(_, _, _, b) => match g.s.below(5) {
            0 => {
                b.pop();
            }
            1 => b.push(g.u8()),
            2 => b.push(0),
            3 if !b.is_empty() => {
                let i = g.s.usize(0, b.len() - 1);
                b[i] ^= 1 << g.s.below(8);
            }
            _ => b.truncate(g.s.usize(0, b.len())),
        },
        MR::A(a) => a[g.s.usize(0, 3)] ^= 1 << g.s.below(8),
        MR::Aaaa(a) => a[g.s.usize(0, 15)] ^= 1 << g.s.below(8),
        MR::Mx(p, _) | MR::Srv(p, ..) => *p ^= 1 << g.s.below(16),
        MR::Txt(t) => {
            if g.s.bool() {
                t.push(g.text(20));
            } else if t.len() > 1 {
                t.pop();
            }
        }
        MR::Ns(n) | MR::Cname(n) | MR::Ptr(n) => {
            if name_len(n) < 240 {
                if g.s.bool() {
                    n.insert(0, vec![b'a'; g.s.usize(1, 4)]);
                } else if n.len() > 1 {
                    n.pop();
                }
            }
        }
        _ => {}
    }
    r
}

pub fn records(g: &mut G, code: u16, mean: u64, max: usize) -> Vec<MR> {
    let mut v: Vec<MR> = Vec::new();
    while g.s.more(v.len(), mean, max) {
        let r = if v.is_empty() {
            g.rdata(code)
        } else {
            match g.s.weighted(&[6, 3, 1]) {
                0 => g.rdata(code),
                1 => {
                    let i = g.s.usize(0, v.len() - 1);
                    let r = v[i].clone();
                    related(g, &r)
                }
                _ => {
                    let i = g.s.usize(0, v.len() - 1);
                    v[i].clone()
                }
            }
        };
        v.push(r);
    }
    v
}

pub fn any_set(g: &mut G, code: u16, mean: u64, max: usize) -> MSet {
    MSet {
        name: g.name(),
        code,
        class: if code == 41 { g.u16() } else { g.class() },
        ttl: g.u32(),
        recs: records(g, code, mean, max),
    }
}

/// All checks of one set in the given order.
fn check(ctx: &mut Ctx, m: &MSet, orders: &[Vec<usize>]) -> Res {
    let name = fq(&m.name);
    let class = set_class(m);
    let built: Vec<RecordData> = m.recs.iter().map(build_rd).collect();
    let data: Vec<Vec<u8>> = built.iter().map(|r| r.to_bytes()).collect();
    if data.iter().any(|d| d.len() > 65535) {
        return Ok(());
    }
    let want = reference(&m.name, m.code, u16::from(class), m.ttl, &data);
    let mut sorted = data.clone();
    sorted.sort();
    // the sizes of the records are C04's business
    let size: usize = built.iter().map(|r| name_len(&m.name) + 10 + r.byte_size()).sum();
    for order in orders {
        let refs: Vec<&RecordData> = order.iter().map(|i| &built[*i]).collect();
        let mut set = ResourceRecordSet::new(&name, rtype(m.code), class, m.ttl, refs.clone());
        ctx.eval();
        if order.windows(2).any(|w| data[w[0]] > data[w[1]]) {
            let mut key = Vec::new();
            for i in order {
                key.extend_from_slice(&(data[*i].len() as u32).to_be_bytes());
                key.extend_from_slice(&data[*i]);
            }
            ctx.nontrivial_bytes(&key);
            ctx.class("not in canonical order");
        }
        let show = || {
            format!(
                "{} {} {} {} {:?}",
                show_name(&m.name),
                type_name(m.code),
                m.class,
                m.ttl,
                order.iter().map(|i| hex(&data[*i])).collect::<Vec<_>>()
            )
        };
        ensure!(set.name() == &name && std::ptr::eq(set.name(), &name), "the owner of the set {} is {:?}", show(), set.name());
        ensure!(set.set_type() == rtype(m.code), "the type of the set {} is {:?}", show(), set.set_type());
        ensure!(set.set_class() == class, "the class of the set {} is {:?}", show(), set.set_class());
        ensure!(set.ttl() == m.ttl, "the time to live of the set {} is {}", show(), set.ttl());
        ensure!(same(set.records(), &refs), "the records of the set {} are not the given ones", show());
        let got = set.to_bytes();
        ensure!(got == want, "the set {} is encoded wrongly: {}", show(), first_diff(&got, &want));
        ensure!(set.byte_size() == size, "the size of the set {} is {}, expected {size}", show(), set.byte_size());
        ensure!(same(set.records(), &refs), "encoding the set {} changes its records", show());
        let twin = set.clone();
        set.canonical_reorder();
        let now: Vec<Vec<u8>> = set.records().iter().map(|r| r.to_bytes()).collect();
        ensure!(
            now == sorted,
            "canonical order of {} is {:?}",
            show(),
            now.iter().map(|d| hex(d)).collect::<Vec<_>>()
        );
        let mut a: Vec<*const RecordData> = set.records().iter().map(|r| *r as *const _).collect();
        let mut b: Vec<*const RecordData> = refs.iter().map(|r| *r as *const _).collect();
        a.sort();
        b.sort();
        ensure!(a == b, "canonical order of {} is not a permutation of its records", show());
        ensure!(set.to_bytes() == want && set.byte_size() == size, "the set {} is encoded differently once in canonical order", show());
        ensure!(
            set.name() == &name && set.set_type() == rtype(m.code) && set.set_class() == class && set.ttl() == m.ttl,
            "canonical order of {} changes more than the order",
            show()
        );
        let before: Vec<*const RecordData> = set.records().iter().map(|r| *r as *const _).collect();
        set.canonical_reorder();
        let after: Vec<*const RecordData> = set.records().iter().map(|r| *r as *const _).collect();
        ensure!(before == after, "canonical order of {} is not stable", show());
        ensure!(same(twin.records(), &refs) && twin.to_bytes() == want, "the copy of the set {} was changed with it", show());
    }
    ctx.class(type_name(m.code));
    ctx.sample(|| {
        format!(
            "{} {} {} records {:?}",
            show_name(&m.name),
            type_name(m.code),
            data.len(),
            data.iter().map(|d| hex(d)).collect::<Vec<_>>()
        )
    });
    Ok(())
}

fn same(a: &[&RecordData], b: &[&RecordData]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| std::ptr::eq(*x, *y))
}

pub fn shuffled(s: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in 0..n.saturating_sub(1) {
        let j = s.usize(i, n - 1);
        v.swap(i, j);
    }
    v
}

fn some_orders(s: &mut Src, n: usize) -> Vec<Vec<usize>> {
    vec![(0..n).collect(), (0..n).rev().collect(), shuffled(s, n)]
}

fn c17_sets(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let codes = g.all_types();
    let code = codes[idx as usize % codes.len()];
    let m = any_set(&mut g, code, 4, 12);
    let orders = some_orders(g.s, m.recs.len());
    check(ctx, &m, &orders)
}

/// Records that differ in little.
fn c17_close(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let code = [10, 61, 16, 1, 49, 2, 256, 28, 15, 33][idx as usize % 10];
    let mut m = any_set(&mut g, code, 1, 1);
    if m.recs.is_empty() {
        m.recs.push(g.rdata(code));
    }
    let small = g.s.chance(2, 3);
    if small {
        for r in &mut m.recs {
            if let MR::Null(b) | MR::OpenPgp(b) | MR::Dhcid(_, b) = r {
                b.truncate(3);
            }
        }
    }
    while g.s.more(m.recs.len(), 5, 10) {
        let i = g.s.usize(0, m.recs.len() - 1);
        let r = m.recs[i].clone();
        let r = related(&mut g, &r);
        m.recs.push(r);
    }
    let orders = some_orders(g.s, m.recs.len());
    check(ctx, &m, &orders)
}

/// All orders of up to five records.
fn c17_orders(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let codes = g.all_types();
    let code = if idx % 2 == 0 { 10 } else { codes[idx as usize / 2 % codes.len()] };
    let mut m = any_set(&mut g, code, 4, 5);
    m.recs.truncate(5);
    let mut orders = vec![vec![]];
    for i in 0..m.recs.len() {
        let mut next = Vec::new();
        for o in &orders {
            for at in 0..=o.len() {
                let mut o: Vec<usize> = o.clone();
                o.insert(at, i);
                next.push(o);
            }
        }
        orders = next;
    }
    check(ctx, &m, &orders)
}

fn c17_many(s: &mut Src, ctx: &mut Ctx, idx: u64) -> Res {
    let mut g = G::new(s);
    let codes = g.all_types();
    let code = if idx % 2 == 0 { 1 } else { codes[idx as usize / 2 % codes.len()] };
    let n = g.s.usize(13, 400);
    let mut m = any_set(&mut g, code, 1, 1);
    let seed = g.s.below(u64::MAX);
    if code == 1 {
        let b = fill(seed, n * 4);
        let mask = *g.s.pick(&[0xffu8, 3, 0x81]);
        m.recs = b.chunks(4).map(|c| MR::A([c[0] & mask, c[1] & mask, c[2] & mask, c[3] & mask])).collect();
    } else {
        let mut inner = Src::random(seed);
        let mut h = G::new(&mut inner);
        m.recs = (0..n).map(|_| h.rdata(code)).collect();
    }
    let orders = vec![(0..n).collect(), shuffled(&mut Src::random(seed), n)];
    check(ctx, &m, &orders)
}

/// Data up to the largest length there is.
fn c17_long(s: &mut Src, ctx: &mut Ctx, _idx: u64) -> Res {
    let mut g = G::new(s);
    let mut m = any_set(&mut g, 10, 1, 1);
    m.recs.clear();
    let seed = g.s.below(u64::MAX);
    for _ in 0..g.s.usize(2, 4) {
        let n = *g.s.pick(&[65535usize, 65534, 65280, 32768, 32767, 40000, 256, 255, 1, 0]);
        let mut b = fill(seed, n);
        if !b.is_empty() && g.s.bool() {
            let i = g.s.usize(0, b.len() - 1);
            b[i] ^= 0x80;
        }
        m.recs.push(MR::Null(b));
    }
    let orders = some_orders(g.s, m.recs.len());
    check(ctx, &m, &orders)
}
