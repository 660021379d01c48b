//! Agendas deliver by their policy: every sequence of operations on every kind of agenda,
//! against a multiset with the policy written next to it.

use mc_common::enumerate::{permutations, Sequences};
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use search::agenda::{
    beam_heap, binary_heap, limited_heap, weighted::Weighted, weighted::WeightedItem, Agenda,
    BeamHeap, LimitedHeap,
};
use std::collections::VecDeque;
use std::ops::Mul;

/// Percentages, so that the beam factor is exact.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct W(pub u32);

impl Mul for W {
    type Output = W;
    fn mul(self, o: W) -> W {
        W(self.0 * o.0 / 100)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct It {
    pub id: u32,
    pub w: W,
}

impl Weighted for It {
    type Weight = W;
    fn get_weight(&self) -> W {
        self.w
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Stack,
    Queue,
    Priority,
    PriorityCollected,
    Limited(usize),
    LimitedRaw(usize),
    Beam(u32),
    BeamRaw(u32),
}

const KINDS: &[Kind] = &[
    Kind::Stack,
    Kind::Queue,
    Kind::Priority,
    Kind::PriorityCollected,
    Kind::Limited(0),
    Kind::Limited(1),
    Kind::Limited(2),
    Kind::Limited(3),
    Kind::LimitedRaw(0),
    Kind::LimitedRaw(1),
    Kind::LimitedRaw(2),
    Kind::LimitedRaw(4),
    Kind::Limited(usize::MAX),
    Kind::LimitedRaw(usize::MAX),
    Kind::Beam(0),
    Kind::Beam(50),
    Kind::Beam(100),
    Kind::BeamRaw(0),
    Kind::BeamRaw(50),
    Kind::BeamRaw(75),
    Kind::BeamRaw(100),
];

enum Sut {
    Stack(Vec<It>),
    Queue(VecDeque<It>),
    Priority(binary_heap::weighted::BinaryHeap<It>),
    Limited(limited_heap::weighted::LimitedHeap<It>),
    LimitedRaw(LimitedHeap<It, W>),
    Beam(beam_heap::weighted::BeamHeap<It>),
    BeamRaw(BeamHeap<It, W>),
}

/// What a push said: nothing, accepted or not, or the element that had to go.
#[derive(Debug, Clone, Copy, PartialEq)]
enum Said {
    Nothing,
    Accepted(bool),
    Evicted(Option<It>),
}

impl Sut {
    fn new(k: Kind) -> Sut {
        match k {
            Kind::Stack => Sut::Stack(Vec::new()),
            Kind::Queue => Sut::Queue(VecDeque::new()),
            Kind::Priority => Sut::Priority(binary_heap::weighted::BinaryHeap::new()),
            Kind::PriorityCollected => Sut::Priority(std::iter::empty().collect()),
            Kind::Limited(c) => Sut::Limited(limited_heap::weighted::LimitedHeap::with_capacity(c)),
            Kind::LimitedRaw(c) => Sut::LimitedRaw(LimitedHeap::with_capacity(c)),
            Kind::Beam(b) => Sut::Beam(beam_heap::weighted::BeamHeap::new(W(b))),
            Kind::BeamRaw(b) => Sut::BeamRaw(BeamHeap::new(W(b))),
        }
    }
    fn push(&mut self, i: It) -> Said {
        match self {
            Sut::Stack(a) => {
                Agenda::push(a, i);
                Said::Nothing
            }
            Sut::Queue(a) => {
                Agenda::push(a, i);
                Said::Nothing
            }
            Sut::Priority(a) => {
                a.push(i);
                Said::Nothing
            }
            Sut::Limited(a) => Said::Evicted(a.push(i)),
            Sut::LimitedRaw(a) => Said::Evicted(a.push(i, i.w)),
            Sut::Beam(a) => Said::Accepted(a.push(i)),
            Sut::BeamRaw(a) => Said::Accepted(a.push(i, i.w)),
        }
    }
    /// Through the common interface, where there is one.
    fn extend(&mut self, is: &[It]) -> bool {
        match self {
            Sut::Stack(a) => Agenda::extend(a, is.iter().cloned()),
            Sut::Queue(a) => Agenda::extend(a, is.iter().cloned()),
            Sut::Priority(a) => a.extend(is.iter().cloned()),
            Sut::Limited(a) => a.extend(is.iter().cloned()),
            Sut::Beam(a) => a.extend(is.iter().cloned()),
            _ => return false,
        }
        true
    }
    fn pop(&mut self) -> Option<It> {
        match self {
            Sut::Stack(a) => Agenda::pop(a),
            Sut::Queue(a) => Agenda::pop(a),
            Sut::Priority(a) => Agenda::pop(a),
            Sut::Limited(a) => Agenda::pop(a),
            Sut::LimitedRaw(a) => a.pop(),
            Sut::Beam(a) => Agenda::pop(a),
            Sut::BeamRaw(a) => a.pop(),
        }
    }
    fn peek(&self) -> Option<It> {
        match self {
            Sut::Stack(a) => Agenda::peek(a).cloned(),
            Sut::Queue(a) => Agenda::peek(a).cloned(),
            Sut::Priority(a) => Agenda::peek(a).cloned(),
            Sut::Limited(a) => Agenda::peek(a).cloned(),
            Sut::LimitedRaw(a) => a.peek().cloned(),
            Sut::Beam(a) => Agenda::peek(a).cloned(),
            Sut::BeamRaw(a) => a.peek().cloned(),
        }
    }
    fn len(&self) -> usize {
        match self {
            Sut::Stack(a) => Agenda::len(a),
            Sut::Queue(a) => Agenda::len(a),
            Sut::Priority(a) => Agenda::len(a),
            Sut::Limited(a) => Agenda::len(a),
            Sut::LimitedRaw(a) => a.len(),
            Sut::Beam(a) => Agenda::len(a),
            Sut::BeamRaw(a) => a.len(),
        }
    }
    fn is_empty(&self) -> bool {
        match self {
            Sut::Stack(a) => Agenda::is_empty(a),
            Sut::Queue(a) => Agenda::is_empty(a),
            Sut::Priority(a) => Agenda::is_empty(a),
            Sut::Limited(a) => Agenda::is_empty(a),
            Sut::LimitedRaw(a) => a.len() == 0,
            Sut::Beam(a) => Agenda::is_empty(a),
            Sut::BeamRaw(a) => a.len() == 0,
        }
    }
    fn clear(&mut self) {
        match self {
            Sut::Stack(a) => a.clear(),
            Sut::Queue(a) => a.clear(),
            Sut::Priority(a) => a.clear(),
            Sut::Limited(a) => a.clear(),
            Sut::LimitedRaw(a) => a.clear(),
            Sut::Beam(a) => a.clear(),
            Sut::BeamRaw(a) => a.clear(),
        }
    }
    fn contents(self) -> Vec<It> {
        match self {
            Sut::Stack(a) => a,
            Sut::Queue(a) => a.into_iter().collect(),
            Sut::Priority(a) => a.into_iter().collect(),
            Sut::Limited(a) => a.into_iter().collect(),
            Sut::LimitedRaw(a) => a.into_iter().collect(),
            Sut::Beam(a) => a.into_iter().collect(),
            Sut::BeamRaw(a) => a.into_iter().collect(),
        }
    }
}

/// The elements in the order of their arrival, and the policy.
struct Model {
    kind: Kind,
    items: Vec<It>,
}

impl Model {
    fn max(&self) -> Option<W> {
        self.items.iter().map(|i| i.w).max()
    }
    fn accepts(&self, w: W) -> bool {
        match self.kind {
            Kind::Beam(b) | Kind::BeamRaw(b) => self.max().is_none_or(|m| w >= m * W(b)),
            _ => true,
        }
    }
    fn capacity(&self) -> Option<usize> {
        match self.kind {
            Kind::Limited(c) | Kind::LimitedRaw(c) => Some(c),
            _ => None,
        }
    }
    /// Is `i` an element that may be delivered now?
    fn due(&self, i: &It) -> bool {
        match self.kind {
            Kind::Stack => self.items.last() == Some(i),
            Kind::Queue => self.items.first() == Some(i),
            _ => self.items.contains(i) && Some(i.w) == self.max(),
        }
    }
    fn remove(&mut self, i: &It) {
        let p = self.items.iter().position(|j| j == i).unwrap();
        self.items.remove(p);
    }
    /// `said` is what the implementation answered.
    fn push(&mut self, i: It, said: Said) -> Verdict {
        let accepts = self.accepts(i.w);
        match said {
            Said::Nothing => {
                self.items.push(i);
            }
            Said::Accepted(b) => {
                if b != accepts {
                    return Err(format!("push of {:?} into {:?} answered {}", i, self.items, b));
                }
                if b {
                    self.items.push(i);
                }
            }
            Said::Evicted(None) => {
                self.items.push(i);
                if self.items.len() > self.capacity().unwrap() {
                    return Err(format!("holds {:?}: more than its capacity", self.items));
                }
            }
            Said::Evicted(Some(e)) => {
                if self.items.len() < self.capacity().unwrap() {
                    return Err(format!("gave up {:?} although there was space", e));
                }
                self.items.push(i);
                let min = self.items.iter().map(|j| j.w).min().unwrap();
                if !self.items.contains(&e) || e.w != min {
                    return Err(format!("gave up {:?} of {:?}, not a least element", e, self.items));
                }
                self.remove(&e);
            }
        }
        Ok(())
    }
}

/// What can be seen without changing anything.
fn observe(sut: &Sut, model: &Model) -> Verdict {
    if sut.len() != model.items.len() {
        return Err(format!("len() is {} but {:?} are in it", sut.len(), model.items));
    }
    if sut.is_empty() != model.items.is_empty() {
        return Err(format!("is_empty() is {} with {:?} in it", sut.is_empty(), model.items));
    }
    match sut.peek() {
        None if model.items.is_empty() => Ok(()),
        Some(i) if model.due(&i) => Ok(()),
        p => Err(format!("peek() is {:?} with {:?} in it", p, model.items)),
    }
}

fn pop(sut: &mut Sut, model: &mut Model) -> Verdict {
    let p = sut.peek();
    let r = sut.pop();
    if p != r {
        return Err(format!("peek() was {:?} but pop() gave {:?}", p, r));
    }
    match r {
        None if model.items.is_empty() => Ok(()),
        Some(i) if model.due(&i) => {
            model.remove(&i);
            Ok(())
        }
        r => Err(format!("pop() gave {:?} of {:?}", r, model.items)),
    }
}

#[derive(Debug, Clone)]
enum Op {
    Push(u32),
    Pop,
    Extend(Vec<u32>),
    Clear,
}

fn run(kind: Kind, ops: &[Op], obs: &mut Obs) -> Verdict {
    let mut sut = Sut::new(kind);
    let mut model = Model { kind, items: Vec::new() };
    let mut id = 0;
    let mut fresh = |w: u32| {
        id += 1;
        It { id, w: W(w) }
    };
    observe(&sut, &model)?;
    let mut delivered = Vec::new();
    for op in ops {
        match op {
            Op::Push(w) => {
                let i = fresh(*w);
                let said = sut.push(i);
                model.push(i, said)?;
            }
            Op::Pop => {
                let before = model.items.clone();
                pop(&mut sut, &mut model)?;
                if let Some(i) = before.iter().find(|i| !model.items.contains(i)) {
                    delivered.push(i.id)
                }
            }
            Op::Extend(ws) => {
                let is: Vec<It> = ws.iter().map(|w| fresh(*w)).collect();
                if let (Sut::Limited(_), _) | (Sut::Beam(_), _) = (&sut, 0) {
                    // what is kept is only seen at the end; ask the model for one at a time
                    for i in is {
                        let before: Vec<It> = model.items.clone();
                        let len = sut.len();
                        sut.extend(&[i]);
                        let said = match kind {
                            Kind::Beam(_) => Said::Accepted(sut.len() > len),
                            _ if sut.len() > len => Said::Evicted(None),
                            _ => {
                                // any least element may have gone
                                let mut now = before.clone();
                                now.push(i);
                                let min = now.iter().map(|j| j.w).min().unwrap();
                                let gone: Vec<It> =
                                    now.into_iter().filter(|j| j.w == min).collect();
                                if gone.len() > 1 {
                                    // not determined: stop here, after looking at the length
                                    obs.count("undetermined evictions", 1);
                                    return if len == model.capacity().unwrap() {
                                        Ok(())
                                    } else {
                                        Err("gave something up although there was space".into())
                                    };
                                }
                                Said::Evicted(Some(gone[0]))
                            }
                        };
                        model.push(i, said)?;
                    }
                } else if sut.extend(&is) {
                    Extend::extend(&mut model.items, is);
                }
            }
            Op::Clear => {
                sut.clear();
                model.items.clear();
            }
        }
        obs.step();
        obs.state(&(format!("{:?}", kind), model.items.iter().map(|i| i.w).collect::<Vec<_>>()));
        observe(&sut, &model)?;
    }
    // everything that is left comes out, by the policy and also by the iterator
    let left = model.items.len();
    if ops.len() % 2 == 0 {
        for _ in 0..left + 1 {
            pop(&mut sut, &mut model)?;
            obs.step();
        }
        if model.capacity().is_none_or(|c| c > 0) && model.accepts(W(1)) {
            // and it can be used again
            let i = fresh(1);
            let said = sut.push(i);
            model.push(i, said)?;
            observe(&sut, &model)?;
        }
    } else {
        let mut got: Vec<u32> = sut.contents().iter().map(|i| i.id).collect();
        got.sort();
        let mut all: Vec<u32> = model.items.iter().map(|i| i.id).collect();
        all.sort();
        if got != all {
            return Err(format!("the iterator gives {:?}, not {:?}", got, all));
        }
    }
    obs.outcome(&delivered);
    obs.trace();
    if delivered.len() >= 2 {
        obs.nontrivial();
        obs.note(|| format!("delivered (ids in order of arrival) {:?}", delivered));
    }
    Ok(())
}

fn alphabet() -> Vec<Op> {
    vec![
        Op::Push(40),
        Op::Push(80),
        Op::Push(60),
        Op::Pop,
        Op::Push(20),
        Op::Extend(vec![30, 80]),
        Op::Clear,
    ]
}

fn all_sequences(tier: Tier) -> Suite {
    let depth = tier.pick(7, 8);
    let s = Sequences::new(alphabet().len(), depth);
    let n = s.len();
    let ops = move |i: u64| -> Vec<Op> {
        s.get(i % n).into_iter().map(|j| alphabet()[j].clone()).collect()
    };
    Suite::new(
        "sequences",
        format!(
            "every sequence of at most {} operations from {:?} on every kind of agenda {:?}; \
             non-trivial: at least two deliveries",
            depth,
            alphabet(),
            KINDS
        ),
        n * KINDS.len() as u64,
        move |i, o| run(KINDS[(i / n) as usize], &ops(i), o),
        move |i| {
            format!(
                "{:?} on {:?}",
                s.get(i % n).into_iter().map(|j| alphabet()[j].clone()).collect::<Vec<_>>(),
                KINDS[(i / n) as usize]
            )
        },
    )
}

/// All short sequences of operations on agendas that already hold something.
fn prefilled(tier: Tier) -> Suite {
    let sizes: Vec<u32> = tier.pick(vec![4, 7, 8, 15, 16, 33], vec![4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64]);
    let mut starts = Vec::new();
    for &n in &sizes {
        let mut kinds = KINDS.to_vec();
        let c = n as usize;
        Extend::extend(&mut kinds, [Kind::Limited(c - 1), Kind::Limited(c), Kind::Limited(c + 2), Kind::LimitedRaw(c), Kind::LimitedRaw(c + 1)]);
        for k in kinds {
            for pattern in 0..4 {
                let ws: Vec<u32> = (0..n).map(|i| match pattern { 0 => 10 + i, 1 => 90 - i, 2 => 20 + i * 37 % 61, _ => 60 }).collect();
                starts.push((k, ws));
            }
        }
    }
    let s = Sequences::new(alphabet().len(), tier.pick(4, 5));
    let n = s.len();
    let starts = std::sync::Arc::new(starts);
    let s2 = starts.clone();
    Suite::new(
        "prefilled",
        format!(
            "every kind of agenda, also with capacities around the number of elements, filled with n = {:?} elements of rising, falling, mixed and \
             equal priorities, then all sequences of at most 4 (5) of {:?}; non-trivial: at least two deliveries",
            sizes, alphabet()
        ),
        n * starts.len() as u64,
        move |i, o| {
            let (kind, ws) = &starts[(i / n) as usize];
            let mut ops: Vec<Op> = ws.iter().map(|&w| Op::Push(w)).collect();
            Extend::extend(&mut ops, s.get(i % n).into_iter().map(|j| alphabet()[j].clone()));
            run(*kind, &ops, o)
        },
        move |i| {
            let (kind, ws) = &s2[(i / n) as usize];
            format!("{:?} filled with {:?}, then {:?}", kind, ws, s.get(i % n).into_iter().map(|j| alphabet()[j].clone()).collect::<Vec<_>>())
        },
    )
}

/// Bigger contents: all arrival orders of `n` priorities, then everything is delivered.
fn orders(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    let n = tier.pick(7, 8);
    let mut kinds = KINDS.to_vec();
    Extend::extend(&mut kinds, [Kind::Limited(4), Kind::Limited(5), Kind::LimitedRaw(6), Kind::Limited(9)]);
    let ws: Vec<u32> = (1..=n).map(|i| i * 10).collect();
    for p in permutations(&ws) {
        for k in &kinds {
            cases.push((*k, p.clone()));
        }
    }
    // long, structured arrivals
    for len in [9u32, 16, 17, 31, 33, 64, 100, 257, tier.pick(300, 1100)] {
        let asc: Vec<u32> = (1..=len).collect();
        let desc: Vec<u32> = (1..=len).rev().collect();
        let zig: Vec<u32> = (0..len).map(|i| if i % 2 == 0 { i + 1 } else { len + 1 - i }).collect();
        let block: Vec<u32> = (0..len).map(|i| (i * 7) % 5 + 1).collect();
        for p in [asc, desc, zig, block] {
            for k in &kinds {
                cases.push((*k, p.clone()));
            }
            for c in [len as usize / 2, len as usize - 1, len as usize, len as usize + 1] {
                cases.push((Kind::Limited(c), p.clone()));
                cases.push((Kind::LimitedRaw(c), p.clone()));
            }
        }
    }
    Suite::over(
        "orders",
        format!(
            "all {}! arrival orders of {} priorities (and ascending, descending, alternating and \
             repeating arrivals of up to 300 (1100) elements) into every kind of agenda, then all are \
             delivered; after half of the arrivals two are delivered in between",
            n, n
        ),
        cases,
        |(k, p), o| {
            for half in [false, true] {
                let mut ops: Vec<Op> = p.iter().map(|w| Op::Push(*w)).collect();
                if half {
                    ops.insert(p.len() / 2, Op::Pop);
                    ops.insert(p.len() / 2, Op::Pop);
                }
                for _ in 0..ops.len() {
                    ops.push(Op::Pop);
                }
                run(*k, &ops, o)?;
            }
            Ok(())
        },
        |(k, p)| format!("{:?} pushed into {:?}", p, k),
    )
}

/// Extending by several elements at once is pushing them one after another.
fn extensions(tier: Tier) -> Suite {
    let ws = [20u32, 50, 80];
    let depth = tier.pick(4, 5);
    let fill = Sequences::new(ws.len(), depth);
    let more = Sequences::new(ws.len(), depth);
    let (f, m) = (fill.len(), more.len());
    let kinds: Vec<Kind> = KINDS
        .iter()
        .copied()
        .chain([Kind::Limited(4), Kind::Limited(6)])
        .filter(|k| !matches!(k, Kind::LimitedRaw(_) | Kind::BeamRaw(_)))
        .collect();
    let n = kinds.len() as u64;
    let names = format!("{:?}", kinds);
    let ks = kinds.clone();
    let describe = move |i: u64| {
        let (k, i) = (ks[(i % n) as usize], i / n);
        let of = |s: Vec<usize>| s.into_iter().map(|j| ws[j]).collect::<Vec<u32>>();
        (k, of(Sequences::new(ws.len(), depth).get(i % f)), of(Sequences::new(ws.len(), depth).get(i / f)))
    };
    let d2 = describe.clone();
    Suite::new(
        "extensions",
        format!(
            "every agenda of {} filled with at most {} elements of the priorities {:?} one after \
             another and then extended at once by every list of at most {}: it then delivers what it \
             delivers if they were pushed; non-trivial: two elements are added to two at least",
            names, depth, ws, depth
        ),
        n * f * m,
        move |i, o| {
            let (kind, first, second) = describe(i);
            let mut sut = Sut::new(kind);
            let mut model: Vec<It> = Vec::new();
            let mut id = 0;
            let mut push = |model: &mut Vec<It>, w: u32| {
                id += 1;
                let i = It { id, w: W(w) };
                let max = model.iter().map(|j| j.w).max();
                if let Kind::Beam(b) = kind {
                    if max.is_some_and(|m| i.w < m * W(b)) {
                        return i;
                    }
                }
                model.push(i);
                if let Kind::Limited(c) = kind {
                    if model.len() > c {
                        let min = model.iter().map(|j| j.w).min().unwrap();
                        let p = model.iter().position(|j| j.w == min).unwrap();
                        model.remove(p);
                    }
                }
                i
            };
            for w in &first {
                let i = push(&mut model, *w);
                sut.push(i);
                o.step();
            }
            let more: Vec<It> = second.iter().map(|w| push(&mut model, *w)).collect();
            sut.extend(&more);
            o.step();
            o.trace();
            o.state(&(format!("{:?}", kind), model.iter().map(|i| i.w).collect::<Vec<_>>()));
            if first.len() > 1 && second.len() > 1 {
                o.nontrivial();
            }
            let mut got = Vec::new();
            if sut.len() != model.len() {
                return Err(format!("len() is {}, but {:?} should be in it", sut.len(), model));
            }
            while let Some(i) = sut.pop() {
                got.push(i);
                if got.len() > 20 {
                    return Err("delivers without end".into());
                }
            }
            let mut ids: Vec<u32> = got.iter().map(|i| i.id).collect();
            ids.sort();
            ids.dedup();
            if ids.len() != got.len() {
                return Err(format!("delivers an element twice: {:?}", got));
            }
            match kind {
                Kind::Stack => model.reverse(),
                Kind::Queue => (),
                _ => model.sort_by(|a, b| b.w.cmp(&a.w)),
            }
            let same = match kind {
                Kind::Stack | Kind::Queue => got == model,
                Kind::Limited(_) => got.iter().map(|i| i.w).eq(model.iter().map(|i| i.w)),
                _ => {
                    let mut want: Vec<u32> = model.iter().map(|i| i.id).collect();
                    want.sort();
                    got.iter().map(|i| i.w).eq(model.iter().map(|i| i.w)) && ids == want
                }
            };
            o.outcome(&got.iter().map(|i| i.w).collect::<Vec<_>>());
            if same {
                Ok(())
            } else {
                Err(format!("delivers {:?} instead of {:?}", got, model))
            }
        },
        move |i| {
            let (k, a, b) = d2(i);
            format!("{:?} filled with {:?} and extended by {:?}", k, a, b)
        },
    )
}

/// `WeightedItem`s are ordered by their weights alone.
fn weighted_items() -> Suite {
    let mut cases = Vec::new();
    for a in 0..3u32 {
        for b in 0..3u32 {
            for x in 0..3u32 {
                for y in 0..3u32 {
                    cases.push((a, b, x, y));
                }
            }
        }
    }
    Suite::over(
        "weighted-items",
        "all pairs of items × weights in 0..3; non-trivial: the weights differ",
        cases,
        |&(a, b, x, y), o| {
            let (p, q) = (WeightedItem(x, W(a)), WeightedItem(y, W(b)));
            o.step();
            o.trace();
            o.state(&(a, b, x, y));
            if a != b {
                o.nontrivial()
            }
            if p.cmp(&q) != a.cmp(&b)
                || p.partial_cmp(&q) != a.partial_cmp(&b)
                || (p == q) != (a == b)
                || p.get_weight() != W(a)
            {
                return Err("the order of weighted items is not the order of their weights".into());
            }
            Ok(())
        },
        |c| format!("{:?}", c),
    )
}

pub fn check() -> Check {
    Check {
        id: "C01",
        assumptions: vec!["which of several elements of equal priority comes first is left open"],
        build: |t| vec![weighted_items(), all_sequences(t), orders(t), extensions(t), prefilled(t)],
    }
}
