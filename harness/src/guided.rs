//! Search guided by coverage: tapes that reach new edges of the library, new execution counts of
//! edges or bring the operands of a comparison closer together are kept and changed further.
//!
//! The search runs on a fixed number of islands in rounds. An island is a sequential search of its
//! own; after each round the finds of all islands are merged in their order. What is explored does
//! therefore not depend on the number of threads or their schedule.

use crate::cov;
use crate::engine::{new_ctx, run_case, Ctx, Failure, Opts, Pool, Prop, Slots, GUIDED};
use crate::src::{hash_bytes, mix, Rng, Src, HOLE};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

const ISLANDS: u64 = 16;
/// Tapes longer than this are run but not kept.
const KEEP: usize = 12_000;

pub struct Outcome {
    pub ctx: Ctx,
    pub failures: Vec<Failure>,
    pub corpus: usize,
    pub features: usize,
}

struct Entry {
    idx: u64,
    tape: Vec<u64>,
    features: Vec<u32>,
    pairs: Vec<(u64, u64)>,
}

#[derive(Clone)]
struct Seen(Vec<u64>);

impl Seen {
    fn new() -> Self {
        Seen(vec![0; 1 << 13])
    }
    fn slot(f: u32) -> usize {
        if f >> 24 != 0 {
            (1 << 18) + (f & 0x7FFF) as usize
        } else {
            f as usize & 0x3FFFF
        }
    }
    fn has(&self, f: u32) -> bool {
        let i = Self::slot(f);
        self.0[i / 64] >> (i % 64) & 1 != 0
    }
    fn add(&mut self, f: u32) -> bool {
        let i = Self::slot(f);
        let new = self.0[i / 64] >> (i % 64) & 1 == 0;
        self.0[i / 64] |= 1 << (i % 64);
        new
    }
    fn count(&self) -> usize {
        self.0.iter().map(|w| w.count_ones() as usize).sum()
    }
}

fn interesting(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(8),
        1 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1),
        2 => crate::gen::dict_int(r),
        3 => r.below(256),
        4 => r.below(1 << 16),
        _ => r.next(),
    }
}

/// Changes a tape; entries that are to be drawn anew become holes.
fn mutate(r: &mut Rng, e: &Entry, other: &Entry) -> Vec<u64> {
    let mut t = e.tape.clone();
    let steps = 1 + r.below(2) * r.below(4);
    for _ in 0..steps {
        if t.is_empty() {
            break;
        }
        let n = t.len() as u64;
        let i = r.below(n) as usize;
        let span = match r.below(3) {
            0 => 1,
            1 => 1 + r.below(6),
            _ => 1 + r.below(n),
        } as usize;
        let end = (i + span).min(t.len());
        match r.below(14) {
            0 => t[i] = r.next(),
            1 => t[i] = interesting(r),
            2 => t[i] = t[i].wrapping_add(r.below(5)).wrapping_sub(2),
            3 | 4 if !e.pairs.is_empty() => {
                // one operand of a comparison comes from the tape: give it the value of the other
                let (a, b) = e.pairs[r.below(e.pairs.len() as u64) as usize];
                let (a, b) = if r.below(2) == 0 { (a, b) } else { (b, a) };
                let d = [0u64, 0, 1, u64::MAX][r.below(4) as usize];
                let hits: Vec<usize> = (0..t.len()).filter(|k| t[*k] == a.wrapping_add(d)).collect();
                if hits.is_empty() {
                    t[i] = b;
                } else {
                    let k = hits[r.below(hits.len() as u64) as usize];
                    t[k] = b.wrapping_add(d).wrapping_add([0, 0, 1, u64::MAX][r.below(4) as usize]);
                }
            }
            5 => t[i..end].iter_mut().for_each(|v| *v = HOLE),
            6 => t.truncate(i),
            7 => {
                t.drain(i..end);
            }
            8 => {
                let part: Vec<u64> = t[i..end].to_vec();
                let at = r.below(n + 1) as usize;
                t.splice(at..at, part);
            }
            9 => {
                let k = r.below(n) as usize;
                t.swap(i, k);
            }
            10 if !other.tape.is_empty() => {
                let j = r.below(other.tape.len() as u64) as usize;
                let m = (j + span).min(other.tape.len());
                t.splice(i..end, other.tape[j..m].iter().copied());
            }
            11 if !other.tape.is_empty() => {
                let j = r.below(other.tape.len() as u64) as usize;
                t.truncate(i);
                t.extend_from_slice(&other.tape[j..]);
            }
            12 => {
                let part = vec![HOLE; span.min(8)];
                t.splice(i..i, part);
            }
            _ => t[i] = HOLE,
        }
    }
    t
}

struct Island {
    found: Vec<Entry>,
}

#[allow(clippy::too_many_arguments)]
pub fn search(o: &Opts, prop: &Prop, pi: usize, n: u64, cases: u64, limit: Duration, slots: &Slots) -> Outcome {
    let ph = &prop.phases[pi];
    let started = Instant::now();
    let rounds = if cases >= 64_000 { 6 } else if cases >= 8_000 { 4 } else { 2 };
    let per = (cases / (rounds * ISLANDS)).max(1);
    let mut seen = Seen::new();
    let mut corpus: Vec<Arc<Entry>> = Vec::new();
    let total: Mutex<Ctx> = Mutex::new(new_ctx(o));
    let failures: Mutex<Vec<Failure>> = Mutex::new(Vec::new());
    for round in 0..rounds {
        let next = AtomicU64::new(0);
        let lowest = AtomicU64::new(u64::MAX);
        let done: Mutex<Vec<(u64, Island)>> = Mutex::new(Vec::new());
        let (seen_r, corpus_r) = (&seen, &corpus);
        Pool::run(o.threads, slots, 20, |pool, t| {
            let mut ctx = new_ctx(o);
            loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= ISLANDS || started.elapsed() > limit {
                    break;
                }
                let mut r = Rng::new(mix(&[
                    o.seed,
                    hash_bytes(prop.id.as_bytes()),
                    hash_bytes(ph.name.as_bytes()),
                    0x6775_6964_6564,
                    round,
                    k,
                ]));
                let mut seen = seen_r.clone();
                let mut pool_of: Vec<Arc<Entry>> = corpus_r.clone();
                let mut found = 0usize;
                let (mut features, mut pairs) = (Vec::new(), Vec::new());
                for j in 0..per {
                    if k * per + j > lowest.load(Ordering::SeqCst) || started.elapsed() > limit {
                        break;
                    }
                    let fresh = pool_of.len() < 2 || r.below(if round == 0 { 3 } else { 12 }) == 0;
                    let rest = r.next();
                    let (idx, input) = if fresh {
                        (r.below(n), Vec::new())
                    } else {
                        let m = pool_of.len() as u64;
                        let mut e = 0;
                        for _ in 0..3 {
                            e = if r.below(2) == 0 { m - 1 - r.below(m / 4 + 1) } else { r.below(m) } as usize;
                            if pool_of[e].tape.len() < 2000 {
                                break;
                            }
                        }
                        let f = r.below(m) as usize;
                        let idx = if r.below(30) == 0 { r.below(n) } else { pool_of[e].idx };
                        (idx, mutate(&mut r, &pool_of[e], &pool_of[f]))
                    };
                    slots.set_tape(t, &input, rest);
                    slots.set(t, pi as u64 + 1, idx | GUIDED);
                    pool.begin(t);
                    let mut src = Src::mixed(input, rest);
                    cov::start();
                    let res = run_case(ph, &mut src, &mut ctx, idx);
                    cov::stop(&mut features, &mut pairs);
                    ctx.slowest_ms = ctx.slowest_ms.max(pool.end(t));
                    if let Err(msg) = res {
                        // only what its recorded choices alone repeat is a counterexample
                        let again = (0..3).any(|_| {
                            slots.set(t, pi as u64 + 1, idx | GUIDED);
                            pool.begin(t);
                            let r = run_case(ph, &mut Src::replay(src.tape.clone()), &mut new_ctx(o), idx);
                            pool.end(t);
                            r.is_err()
                        });
                        if !again {
                            ctx.class("guided failure that its choices do not repeat");
                            continue;
                        }
                        lowest.fetch_min(k * per + j, Ordering::SeqCst);
                        failures.lock().unwrap().push(Failure { num: round * per * ISLANDS + k * per + j, idx, msg, tape: src.tape });
                        break;
                    }
                    if src.tape.len() > KEEP {
                        continue;
                    }
                    let mut new = Vec::new();
                    for f in &features {
                        if !seen.has(*f) {
                            seen.add(*f);
                            new.push(*f);
                        }
                    }
                    if !new.is_empty() {
                        pairs.truncate(128);
                        pool_of.push(Arc::new(Entry {
                            idx,
                            tape: src.tape,
                            features: new,
                            pairs: pairs.clone(),
                        }));
                        found += 1;
                    }
                }
                let from = pool_of.len() - found;
                let found = pool_of.drain(from..).collect::<Vec<_>>();
                let found = found.into_iter().filter_map(Arc::into_inner).collect();
                done.lock().unwrap().push((k, Island { found }));
            }
            total.lock().unwrap().merge(ctx);
        });
        if !failures.lock().unwrap().is_empty() || started.elapsed() > limit {
            break;
        }
        let mut done = done.into_inner().unwrap();
        done.sort_by_key(|d| d.0);
        for (_, island) in done {
            for e in island.found {
                let mut any = false;
                for f in &e.features {
                    any |= seen.add(*f);
                }
                if any {
                    corpus.push(Arc::new(e));
                }
            }
        }
    }
    Outcome {
        ctx: total.into_inner().unwrap(),
        failures: failures.into_inner().unwrap(),
        corpus: corpus.len(),
        features: seen.count(),
    }
}
