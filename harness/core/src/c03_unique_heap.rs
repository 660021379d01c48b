//! The priority queue without duplicates: every way of filling it, every sequence of operations.

use mc_common::enumerate::Sequences;
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use std::collections::BTreeMap;
use std::hash::BuildHasher;
use unique_heap::{FnvUniqueHeap, UniqueHeap};

type Pair = (u8, u8); // item, weight

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Start {
    Default,
    Collect,
    Vector,
    Fnv,
    FnvCollect,
    FnvVector,
}
const STARTS: [Start; 6] = [
    Start::Default,
    Start::Collect,
    Start::Vector,
    Start::Fnv,
    Start::FnvCollect,
    Start::FnvVector,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Push(u8, u8),
    Pop,
    Clone,
}

fn letters() -> Vec<Op> {
    vec![
        Op::Push(0, 1),
        Op::Push(1, 1),
        Op::Pop,
        Op::Push(0, 2),
        Op::Push(2, 0),
        Op::Push(1, 3),
        Op::Clone,
    ]
}

fn observe<B: BuildHasher>(h: &UniqueHeap<u8, u8, B>, m: &BTreeMap<u8, u8>) -> Verdict {
    let best = m.iter().map(|(i, w)| (*w, *i)).max();
    if h.peek().cloned() != best {
        return Err(format!("peek() is {:?} with {:?}", h.peek(), m));
    }
    if h.len() != m.len() || h.is_empty() != m.is_empty() {
        return Err(format!("len() is {}, is_empty() is {} with {:?}", h.len(), h.is_empty(), m));
    }
    let mut seen: Vec<Pair> = h.into_iter().map(|&(w, i)| (i, w)).collect();
    seen.sort();
    let all: Vec<Pair> = m.iter().map(|(i, w)| (*i, *w)).collect();
    if seen != all {
        return Err(format!("it holds {:?}, not {:?}", seen, all));
    }
    Ok(())
}

fn drive<B: BuildHasher + Clone + Default>(
    mut h: UniqueHeap<u8, u8, B>,
    init: &[Pair],
    ops: &[Op],
    obs: &mut Obs,
) -> Verdict {
    let mut m: BTreeMap<u8, u8> = BTreeMap::new();
    for &(i, w) in init {
        // the first weight that comes with an item is the one that counts, or any other one
        // that came with it: only "at most once" is promised for the constructors
        m.entry(i).or_insert(w);
    }
    // a constructor may have picked another of the weights it was offered
    for &(w, i) in &h {
        if init.contains(&(i, w)) {
            m.insert(i, w);
        }
    }
    observe(&h, &m).map_err(|e| format!("after construction: {}", e))?;
    let mut out = Vec::new();
    for (n, op) in ops.iter().enumerate() {
        match op {
            Op::Push(i, w) => {
                let new = !m.contains_key(i);
                if h.push(*i, *w) != new {
                    return Err(format!("step {}: push({}, {}) answered {} with {:?}", n, i, w, !new, m));
                }
                m.entry(*i).or_insert(*w);
            }
            Op::Pop => {
                let best = m.iter().map(|(i, w)| (*w, *i)).max();
                let got = h.pop();
                if got.map(|(i, w)| (w, i)) != best {
                    return Err(format!("step {}: pop() gave {:?} of {:?}", n, got, m));
                }
                if let Some((_, i)) = best {
                    m.remove(&i);
                    out.push(i);
                }
            }
            Op::Clone => {
                let c = h.clone();
                // the original goes its own way
                h.push(9, 9);
                h.pop();
                h.pop();
                h = c;
            }
        }
        obs.step();
        obs.state(&m);
        observe(&h, &m).map_err(|e| format!("step {}: {}", n, e))?;
    }
    let mut all: Vec<(u8, u8)> = m.iter().map(|(i, w)| (*w, *i)).collect();
    all.sort();
    if ops.len() % 2 == 0 {
        let v = h.clone().into_sorted_vec();
        if v != all {
            return Err(format!("into_sorted_vec() is {:?}, not {:?}", v, all));
        }
        let mut v: Vec<(u8, u8)> = h.clone().into_iter().collect();
        v.sort();
        if v != all {
            return Err(format!("into_iter() gives {:?}, not {:?}", v, all));
        }
    }
    while let Some((i, w)) = h.pop() {
        if all.pop() != Some((w, i)) {
            return Err(format!("emptying it gave {:?}", (i, w)));
        }
        obs.step();
        out.push(i);
        // what has left may come back
        if !h.push(i, w) || h.pop() != Some((i, w)) {
            return Err(format!("{} does not come back", i));
        }
    }
    if !all.is_empty() {
        return Err(format!("{:?} never came out", all));
    }
    obs.trace();
    obs.outcome(&out);
    if out.len() >= 2 {
        obs.nontrivial();
        obs.note(|| format!("items popped: {:?}", out));
    }
    Ok(())
}

fn start_and_drive(s: Start, init: &[Pair], ops: &[Op], obs: &mut Obs) -> Verdict {
    let turned: Vec<(u8, u8)> = init.iter().map(|&(i, w)| (w, i)).collect();
    match s {
        Start::Default => {
            let mut h: UniqueHeap<u8, u8> = UniqueHeap::default();
            for &(i, w) in init {
                h.push(i, w);
            }
            drive(h, init, ops, obs)
        }
        Start::Collect => {
            let h: UniqueHeap<u8, u8> = init.iter().cloned().collect();
            drive(h, init, ops, obs)
        }
        Start::Vector => {
            let h: UniqueHeap<u8, u8> = turned.into();
            drive(h, init, ops, obs)
        }
        Start::Fnv => {
            let mut h: FnvUniqueHeap<u8, u8> = UniqueHeap::default();
            for &(i, w) in init {
                h.push(i, w);
            }
            drive(h, init, ops, obs)
        }
        Start::FnvCollect => {
            let h: FnvUniqueHeap<u8, u8> = init.iter().cloned().collect();
            drive(h, init, ops, obs)
        }
        Start::FnvVector => {
            let h: FnvUniqueHeap<u8, u8> = turned.into();
            drive(h, init, ops, obs)
        }
    }
}

fn sequences(tier: Tier) -> Suite {
    let depth = tier.pick(7, 8);
    let s = Sequences::new(letters().len(), depth);
    let n = s.len();
    let get = move |i: u64| -> Vec<Op> { s.get(i).into_iter().map(|j| letters()[j]).collect() };
    Suite::new(
        "sequences",
        format!(
            "all sequences of at most {} of {:?} on an empty queue with either hasher; then it is \
             emptied; non-trivial: at least two items came out",
            depth,
            letters()
        ),
        2 * n,
        move |i, o| {
            let start = if i / n == 0 { Start::Default } else { Start::Fnv };
            start_and_drive(start, &[], &get(i % n), o)
        },
        move |i| format!("{:?}, {:?}", if i / n == 0 { Start::Default } else { Start::Fnv }, get(i % n)),
    )
}

/// All short sequences of operations on queues that already hold something.
fn prefilled(tier: Tier) -> Suite {
    let sizes: Vec<u8> = tier.pick(vec![3, 5, 8, 14, 29], vec![3, 4, 5, 6, 7, 8, 12, 13, 14, 28, 29, 56, 57]);
    let letters = [Op::Push(0, 1), Op::Pop, Op::Push(3, 5), Op::Push(1, 9), Op::Push(4, 0), Op::Clone];
    let s = Sequences::new(letters.len(), tier.pick(5, 6));
    let n = s.len();
    let k = 4 * sizes.len() as u64;
    let get = move |i: u64| -> (Start, Vec<Op>) {
        let (start, i) = (if i / (k * n) == 0 { Start::Default } else { Start::Fnv }, i % (k * n));
        let size = sizes[(i / n / 4) as usize];
        let pattern = i / n % 4;
        let mut ops: Vec<Op> = (0..size).map(|j| Op::Push(3 + j, match pattern { 0 => j, 1 => 200 - j, 2 => (j as u32 * 37 % 11) as u8, _ => 5 })).collect();
        ops.extend(s.get(i % n).into_iter().map(|j| letters[j]));
        (start, ops)
    };
    let g2 = get.clone();
    Suite::new(
        "prefilled",
        "queues with either hasher of several sizes, filled with items of rising, falling, mixed and equal weights, then all sequences of at most 5 (6) \
         operations (pushing present and new items of low, middle and high weights, pop, clone); then it is emptied",
        2 * k * n,
        move |i, o| {
            let (start, ops) = get(i);
            start_and_drive(start, &[], &ops, o)
        },
        move |i| format!("{:?}", g2(i)),
    )
}

fn constructors(tier: Tier) -> Suite {
    let pairs: Vec<Pair> = vec![(0, 1), (1, 1), (0, 2), (2, 3), (1, 0)];
    let init = Sequences::new(pairs.len(), tier.pick(4, 5));
    let ops = Sequences::new(letters().len(), 2);
    let (a, b) = (init.len(), ops.len());
    let get = move |i: u64| {
        let start = STARTS[(i / (a * b)) as usize];
        let i = i % (a * b);
        let init: Vec<Pair> = init.get(i / b).into_iter().map(|j| pairs[j]).collect();
        let ops: Vec<Op> = ops.get(i % b).into_iter().map(|j| letters()[j]).collect();
        (start, init, ops)
    };
    let get = std::sync::Arc::new(get);
    let get2 = get.clone();
    Suite::new(
        "constructors",
        "all lists of at most 4 (5) weighted items, with repeated items, given to every \
         constructor, then all sequences of at most two operations, then it is emptied",
        STARTS.len() as u64 * a * b,
        move |i, o| {
            let (s, p, q) = get(i);
            start_and_drive(s, &p, &q, o)
        },
        move |i| format!("{:?}", get2(i)),
    )
}

/// Many items: each of `n` numbers is given `times` times, in steps of `step`, to every constructor;
/// then all come out, twice.
fn many(tier: Tier) -> Suite {
    let sizes: Vec<u32> = (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, tier.pick(500, 1500)]).collect();
    let mut cases = Vec::new();
    for &n in &sizes {
        for step in [1, n.saturating_sub(1), 7, 11] {
            for classes in [1, 3, u32::MAX] {
                for start in STARTS {
                    cases.push((n, step, classes, start));
                }
            }
        }
    }
    fn drive<B: BuildHasher>(mut h: UniqueHeap<u32, u32, B>, first: &[(u32, u32)], obs: &mut Obs) -> Verdict {
        let mut e: Vec<(u32, u32)> = first.iter().map(|&(i, w)| (w, i)).collect();
        e.sort();
        for round in 0..2 {
            if h.len() != e.len() || (&h).into_iter().count() != e.len() {
                return Err(format!("round {}: {} items, not {}", round, h.len(), e.len()));
            }
            for &(w, i) in e.iter().rev() {
                if h.push(i, w + 1) {
                    return Err(format!("round {}: {} is pushed though it is present", round, i));
                }
                let got = h.pop();
                if got != Some((i, w)) {
                    return Err(format!("round {}: {:?} comes out, not {:?}", round, got, (i, w)));
                }
                obs.step();
            }
            if h.pop().is_some() || !h.is_empty() {
                return Err(format!("round {}: something is left", round));
            }
            for &(w, i) in &e {
                if !h.push(i, w) || h.push(i, w + 1) {
                    return Err(format!("round {}: {} is not pushed exactly once", round, i));
                }
            }
        }
        if h.into_sorted_vec() != e {
            return Err("into_sorted_vec() is not sorted or not complete".into());
        }
        obs.trace();
        obs.outcome(&e);
        if e.len() > 1 {
            obs.nontrivial();
        }
        Ok(())
    }
    Suite::over(
        "many",
        "n items for all n up to 40 and some up to 500 (1500), in four orders, with all, some or no equal weights, \
         each given twice to every constructor; all are popped and pushed twice; non-trivial: at least two items",
        cases,
        |&(n, step, classes, start), o| {
            let mut item = 0;
            let mut seen = vec![false; n as usize];
            let mut first: Vec<(u32, u32)> = Vec::new();
            for k in 0..n {
                while seen[item as usize] {
                    item = (item + 1) % n;
                }
                seen[item as usize] = true;
                first.push((item, (k * 5 + 3) % classes));
                item = (item + step) % n;
            }
            o.state(&(n, step, classes, start));
            let twice: Vec<(u32, u32)> = first.iter().chain(&first).cloned().collect();
            let turned: Vec<(u32, u32)> = twice.iter().map(|&(i, w)| (w, i)).collect();
            match start {
                Start::Default => {
                    let mut h: UniqueHeap<u32, u32> = UniqueHeap::default();
                    for &(i, w) in &twice {
                        h.push(i, w);
                    }
                    drive(h, &first, o)
                }
                Start::Collect => drive(twice.into_iter().collect::<UniqueHeap<u32, u32>>(), &first, o),
                Start::Vector => drive(UniqueHeap::<u32, u32>::from(turned), &first, o),
                Start::Fnv => {
                    let mut h: FnvUniqueHeap<u32, u32> = UniqueHeap::default();
                    for &(i, w) in &twice {
                        h.push(i, w);
                    }
                    drive(h, &first, o)
                }
                Start::FnvCollect => drive(twice.into_iter().collect::<FnvUniqueHeap<u32, u32>>(), &first, o),
                Start::FnvVector => drive(FnvUniqueHeap::<u32, u32>::from(turned), &first, o),
            }
        },
        |c| format!("{:?} (n, step, classes of weights, constructor)", c),
    )
}

pub fn check() -> Check {
    Check {
        id: "C03",
        assumptions: vec![
            "when a constructor is given an item with several weights, any of them may be the one it keeps",
        ],
        build: |t| vec![constructors(t), prefilled(t), sequences(t), many(t)],
    }
}
