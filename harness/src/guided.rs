//! Coverage-guided search: cases whose choices are mutations of those of
//! earlier cases that reached something new in the code under test. It runs in
//! a build with edge coverage (tools/cov-wrapper.sh).
//!
//! Eight islands search on their own and put what they found together after
//! every round, in a fixed order, so that a run is a function of the seed.

use crate::dict::dict;
use crate::engine::*;
use crate::src::{mix, Src};
use std::collections::{BTreeMap, HashSet};
use std::hash::Hash;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

const ISLANDS: usize = 8;
const ROUNDS: u64 = 12;
/// Longer lists of choices are not kept.
const LONGEST: usize = 3000;

#[derive(Clone)]
struct Seedling {
    phase: usize,
    choices: Vec<u64>,
    edges: Vec<(u32, u8)>,
}

struct Island {
    rng: u64,
    corpus: Vec<Seedling>,
    /// How many of the corpus every island has.
    shared: usize,
    seen: Vec<u8>,
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    sample: Option<serde_json::Value>,
}

impl Island {
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.rng)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
    fn pick(&mut self) -> usize {
        let n = self.corpus.len();
        let i = self.below(n);
        // what came last is looked at more often
        if self.below(2) == 0 {
            i.max(self.below(n))
        } else {
            i
        }
    }
    fn value(&mut self, old: u64) -> u64 {
        let nums = &dict().nums;
        match self.below(if nums.is_empty() { 8 } else { 10 }) {
            0 => 0,
            1 => old.wrapping_add(1),
            2 => old.saturating_sub(1),
            3 => self.next() >> 32,
            4 => self.next() % 16,
            5 => self.next() % 256,
            6 => (1u64 << self.below(33)).wrapping_sub(self.below(2) as u64),
            7 => old ^ 1 << self.below(8),
            _ => nums[self.below(nums.len())].wrapping_add(self.below(3) as u64).wrapping_sub(1),
        }
    }
    fn mutate(&mut self, from: usize) -> Vec<u64> {
        let mut c = self.corpus[from].choices.clone();
        let phase = self.corpus[from].phase;
        for _ in 0..1 + self.below(4) {
            let len = c.len();
            if len == 0 {
                break;
            }
            let at = self.below(len);
            let most = [1, 4, 16, 64][self.below(4)];
            let n = 1 + self.below(most).min(len - at - 1);
            match self.below(9) {
                0..=2 => {
                    let v = self.value(c[at]);
                    c[at] = v;
                }
                3 => {
                    c.drain(at..at + n);
                }
                4 => {
                    let part = c[at..at + n].to_vec();
                    let to = self.below(len + 1);
                    c.splice(to..to, part);
                }
                5 => {
                    let part: Vec<u64> = (0..n).map(|_| self.next() % 64).collect();
                    c.splice(at..at, part);
                }
                6 => {
                    let part: Vec<u64> = (0..n).map(|_| self.next() >> 32).collect();
                    c.splice(at..at + n, part);
                }
                7 => {
                    // the rest anew
                    c.truncate(at);
                }
                _ => {
                    // a part of another one
                    let other = self.pick();
                    if self.corpus[other].phase == phase && !self.corpus[other].choices.is_empty() {
                        let o = &self.corpus[other].choices;
                        let (olen, mut from) = (o.len(), 0);
                        if self.below(2) == 0 {
                            from = self.below(olen);
                        }
                        let m = (1 + self.below(64)).min(olen - from);
                        let part = self.corpus[other].choices[from..from + m].to_vec();
                        if self.below(2) == 0 {
                            c.splice(at..at, part);
                        } else {
                            c.splice(at..at + n, part);
                        }
                    }
                }
            }
            c.truncate(LONGEST);
        }
        c
    }
    /// Whether there is anything new in these edges, which is noted.
    fn news(&mut self, edges: &[(u32, u8)]) -> bool {
        let mut new = false;
        for (g, bit) in edges {
            let s = &mut self.seen[*g as usize];
            new |= *s & bit == 0;
            *s |= bit;
        }
        new
    }
}

/// The number of mutated cases of a property.
fn budget<P: Prop>(o: &Opts) -> u64 {
    let random: u64 = P::phases(Tier::Quick).iter().filter(|p| !p.enumerated).map(|p| p.count).sum();
    let n = (random * P::QUICK) as f64 * o.scale * if o.tier == Tier::Quick { 0.35 } else { 15.0 };
    n as u64
}

/// Runs the guided search of a property and adds it to the evidence.
pub fn run<P: Prop>(o: &Opts) -> Outcome {
    let start = Instant::now();
    if vcov::edges() == 0 {
        eprintln!("this build has no coverage");
        return Outcome::HarnessError;
    }
    let all = P::phases(o.tier);
    // the rare phases have large cases
    let most = all.iter().filter(|p| !p.enumerated).map(|p| p.count).max().unwrap_or(0);
    let phases: Vec<usize> = (0..all.len()).filter(|i| !all[*i].enumerated && all[*i].count * 12 >= most).collect();
    if phases.is_empty() {
        return Outcome::Held;
    }
    let each = (budget::<P>(o) / ISLANDS as u64 / ROUNDS).max(1);
    // a loaded machine makes it stop early
    let limit = if o.tier == Tier::Quick { 60.0 } else { 600.0 };
    let slots = new_slots(ISLANDS);
    watchdog(slots.clone(), o.state.clone());
    let mut islands: Vec<Island> = (0..ISLANDS)
        .map(|i| Island {
            rng: case_seed(o.seed, P::ID, "guided", i as u64),
            corpus: vec![],
            shared: 0,
            seen: vec![0; vcov::SIZE],
            evaluations: 0,
            nontrivial: 0,
            distinct: HashSet::new(),
            classes: BTreeMap::new(),
            sample: None,
        })
        .collect();
    let mut failure: Option<(usize, Vec<u64>, Fail)> = None;
    let mut harness: Option<String> = None;
    let mut rounds = 0;
    for round in 0..ROUNDS {
        let found: Mutex<Vec<(usize, usize, Vec<u64>, Fail)>> = Mutex::new(vec![]);
        let broken: Mutex<Option<String>> = Mutex::new(None);
        let tid = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for isl in islands.iter_mut() {
                let (slots, found, broken, all, phases) = (&slots, &found, &broken, &all, &phases);
                let me = tid.fetch_add(1, Ordering::SeqCst);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let slot = &slots[me];
                        slot.begin();
                        let mut ctx = Ctx::default();
                        for k in 0..each {
                            if k % 64 == 0 && (start.elapsed().as_secs_f64() > limit || !found.lock().unwrap().is_empty() && round > 0) {
                                break;
                            }
                            let fresh = isl.corpus.len() < 8 || isl.below(if round == 0 { 2 } else { 8 }) == 0;
                            let (phase, choices) = if fresh {
                                (phases[isl.below(phases.len())], vec![])
                            } else {
                                let from = isl.pick();
                                (isl.corpus[from].phase, isl.mutate(from))
                            };
                            let name = all[phase].name;
                            let seed = isl.next();
                            let mut src = Src::extend(&choices, seed);
                            let case = P::gen(name, 0, &mut src);
                            let choices = src.rec;
                            slot.at(phase as u64, u64::MAX, &choices);
                            ctx.clear();
                            let (v, edges) = vcov::record(|| run_case::<P>(&case, &mut ctx));
                            isl.evaluations += 1;
                            for c in &ctx.classes {
                                *isl.classes.entry(c).or_default() += 1;
                            }
                            if ctx.nontrivial {
                                isl.nontrivial += 1;
                                if isl.distinct.len() < 2_000_000 {
                                    let mut h = Fx(0);
                                    case.hash(&mut h);
                                    isl.distinct.insert(std::hash::Hasher::finish(&h));
                                }
                            }
                            match v {
                                Ok(()) => {
                                    if isl.news(&edges) && choices.len() <= LONGEST {
                                        if ctx.nontrivial {
                                            isl.sample = Some(sample_value(&case));
                                        }
                                        isl.corpus.push(Seedling { phase, choices, edges });
                                    }
                                }
                                Err(Verdict::Fail(f)) => {
                                    found.lock().unwrap().push((me, phase, choices, f));
                                    break;
                                }
                                Err(Verdict::Harness(m)) => {
                                    *broken.lock().unwrap() = Some(m);
                                    break;
                                }
                            }
                        }
                        slot.end();
                    })
                    .unwrap();
            }
        });
        rounds = round + 1;
        harness = broken.into_inner().unwrap();
        let mut found = found.into_inner().unwrap();
        found.sort_by_key(|f| (f.2.len(), f.0));
        if harness.is_some() || !found.is_empty() {
            failure = found.into_iter().next().map(|f| (f.1, f.2, f.3));
            break;
        }
        // put together what is new to anyone
        let fresh: Vec<Seedling> = islands.iter().flat_map(|i| i.corpus[i.shared..].iter().cloned()).collect();
        let old = islands[0].corpus[..islands[0].shared].to_vec();
        let mut seen = vec![0u8; vcov::SIZE];
        for s in &old {
            for (g, b) in &s.edges {
                seen[*g as usize] |= b;
            }
        }
        let mut corpus = old;
        for s in fresh {
            if s.edges.iter().any(|(g, b)| seen[*g as usize] & b == 0) {
                for (g, b) in &s.edges {
                    seen[*g as usize] |= b;
                }
                corpus.push(s);
            }
        }
        for i in islands.iter_mut() {
            i.corpus = corpus.clone();
            i.shared = corpus.len();
            for (a, b) in i.seen.iter_mut().zip(&seen) {
                *a |= b;
            }
        }
        if start.elapsed().as_secs_f64() > limit {
            break;
        }
    }
    if let Some(m) = harness {
        eprintln!("harness error in the guided search of {}: {}", P::ID, m);
        return Outcome::HarnessError;
    }

    let evaluations: u64 = islands.iter().map(|i| i.evaluations).sum();
    let nontrivial: u64 = islands.iter().map(|i| i.nontrivial).sum();
    let mut distinct = HashSet::new();
    let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
    for i in islands.iter_mut() {
        distinct.extend(i.distinct.drain());
        for (k, v) in &i.classes {
            *classes.entry(k).or_default() += v;
        }
    }
    let mut edges = HashSet::new();
    for s in &islands[0].corpus {
        edges.extend(s.edges.iter().map(|e| e.0));
    }
    let sample = islands.iter().rev().find_map(|i| i.sample.clone());
    let wall = start.elapsed().as_secs_f64();
    add_evidence(
        o,
        P::ID,
        serde_json::json!({
            "evaluations": evaluations, "nontrivial": nontrivial, "distinct_nontrivial": distinct.len(),
            "enumerated_completely": false, "rounds": rounds, "kept": islands[0].corpus.len(), "edges_reached": edges.len(), "edges_instrumented": vcov::edges(),
            "classes": classes, "wall_s": (wall * 1000.0).round() / 1000.0,
        }),
        sample,
        wall,
        failure.is_some() as u64,
    );
    println!("{} {} guided: {} cases, {} distinct non-trivial, {} kept, {:.1} s", P::ID, o.tier.name(), evaluations, distinct.len(), islands[0].corpus.len(), wall);
    if let Some((phase, choices, f)) = failure {
        report::<P>(o, &slots[0], all[phase].name, "guided", 0, choices, f);
        return Outcome::Violated;
    }
    Outcome::Held
}
