//! Tree stacks: all sequences of operations, all instructions on all reachable stacks, all pairs
//! of reachable stacks, against a map from addresses to values with a pointer.

use mc_common::{Check, Obs, Suite, Tier, Verdict};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::recognisable::Instruction;
use std::cmp::Ordering;
use std::collections::BTreeMap;

type Address = Vec<usize>;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Model {
    nodes: BTreeMap<Address, u8>,
    pointer: Address,
}

impl Model {
    pub fn new(v: u8) -> Model {
        Model { nodes: [(vec![], v)].into_iter().collect(), pointer: vec![] }
    }
    fn child(&self, n: usize) -> Address {
        let mut a = self.pointer.clone();
        a.push(n);
        a
    }
    fn current(&self) -> u8 {
        self.nodes[&self.pointer]
    }
    fn push(&self, n: usize, v: u8) -> Option<Model> {
        let a = self.child(n);
        if self.nodes.contains_key(&a) {
            return None;
        }
        let mut m = self.clone();
        m.nodes.insert(a.clone(), v);
        m.pointer = a;
        Some(m)
    }
    fn free(&self) -> usize {
        (0..).find(|n| !self.nodes.contains_key(&self.child(*n))).unwrap()
    }
    fn children(&self) -> Vec<usize> {
        self.nodes
            .keys()
            .filter(|a| a.len() == self.pointer.len() + 1 && a.starts_with(&self.pointer))
            .map(|a| *a.last().unwrap())
            .collect()
    }
    fn up(&self, n: usize) -> Option<Model> {
        let a = self.child(n);
        if !self.nodes.contains_key(&a) {
            return None;
        }
        Some(Model { nodes: self.nodes.clone(), pointer: a })
    }
    fn down(&self) -> Option<Model> {
        let mut m = self.clone();
        m.pointer.pop()?;
        Some(m)
    }
    fn set(&self, v: u8) -> Model {
        let mut m = self.clone();
        m.nodes.insert(m.pointer.clone(), v);
        m
    }
    fn apply(&self, i: &TreeStackInstruction<u8>) -> Option<Model> {
        use TreeStackInstruction::*;
        match i {
            Up { n, current_val, old_val, new_val } => {
                if self.current() != *current_val {
                    return None;
                }
                let m = self.up(*n)?;
                if m.current() == *old_val { Some(m.set(*new_val)) } else { None }
            }
            Push { n, current_val, new_val } => {
                if self.current() != *current_val {
                    return None;
                }
                self.push(*n, *new_val)
            }
            Down { current_val, old_val, new_val } => {
                if self.current() != *current_val {
                    return None;
                }
                let m = self.down()?;
                if m.current() == *old_val { Some(m.set(*new_val)) } else { None }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Push(usize, u8),
    PushNext(u8),
    Up(usize),
    Down,
    Set(u8),
}

fn operations(positions: usize, values: u8) -> Vec<Op> {
    let mut v = Vec::new();
    for n in 0..positions {
        for a in 0..values {
            v.push(Op::Push(n, a));
        }
        v.push(Op::Up(n));
    }
    for a in 0..values {
        v.push(Op::PushNext(a));
        v.push(Op::Set(a));
    }
    v.push(Op::Down);
    v
}

/// Is the stack the one of the model, by all ways to look at it?
fn same(t: &TreeStack<u8>, m: &Model) -> Verdict {
    let (tree, pointer) = t.to_tree();
    let nodes: Vec<(Address, u8)> = tree.into_iter().collect();
    if pointer != m.pointer || nodes.len() != m.nodes.len() || !nodes.iter().all(|(a, v)| m.nodes.get(a) == Some(v)) {
        return Err(format!("it is {:?} at {:?}, not {:?} at {:?}", nodes, pointer, m.nodes, m.pointer));
    }
    if *t.current_symbol() != m.current() {
        return Err(format!("the current symbol is {}", t.current_symbol()));
    }
    if t.is_at_bottom() != m.pointer.is_empty() {
        return Err(format!("at the bottom: {}", t.is_at_bottom()));
    }
    Ok(())
}

fn inspect(t: &TreeStack<u8>, m: &Model) -> Verdict {
    for bound in 0..3u8 {
        let e = m.nodes.iter().filter(|(a, _)| a.starts_with(&m.pointer)).all(|(_, v)| *v < bound);
        if t.all(&|v| *v < bound) != e {
            return Err(format!("all values from the pointer on are less than {}: {}", bound, !e));
        }
    }
    let mapped = t.map(&mut |v| *v + 10);
    let e = Model { nodes: m.nodes.iter().map(|(a, v)| (a.clone(), v + 10)).collect(), pointer: m.pointer.clone() };
    same(&mapped, &e).map_err(|e| format!("mapped, {}", e))?;
    let ups = t.clone().ups();
    let e = m.children();
    if ups.len() != e.len() {
        return Err(format!("{} stacks above, not {}", ups.len(), e.len()));
    }
    for (u, n) in ups.iter().zip(e) {
        same(u, &m.up(n).unwrap()).map_err(|e| format!("the stack at child {}: {}", n, e))?;
    }
    same(t, m).map_err(|e| format!("after looking at it, {}", e))
}

fn perform(t: &TreeStack<u8>, m: &Model, op: Op) -> Result<Option<(TreeStack<u8>, Model)>, String> {
    let (got, e) = match op {
        Op::Push(n, a) => {
            let e = m.push(n, a);
            let called = std::cell::Cell::new(0);
            let with = t.clone().push_with(n, || {
                called.set(called.get() + 1);
                a
            });
            match (&with, &e) {
                (Ok(t), Some(m)) => same(t, m).map_err(|e| format!("push_with: {}", e))?,
                (Err(t), None) => same(t, m).map_err(|e| format!("refused push_with: {}", e))?,
                _ => return Err(format!("push_with: accepted: {}", with.is_ok())),
            }
            if called.get() != e.is_some() as usize {
                return Err(format!("push_with calls for the value {} times", called.get()));
            }
            (t.clone().push(n, a), e)
        }
        Op::PushNext(a) => (Ok(t.clone().push_next(a)), m.push(m.free(), a)),
        Op::Up(n) => (t.clone().up(n), m.up(n)),
        Op::Down => (t.clone().down(), m.down()),
        Op::Set(a) => (Ok(t.clone().set(a)), Some(m.set(a))),
    };
    match (got, e) {
        (Ok(t), Some(m)) => {
            same(&t, &m).map_err(|e| format!("after {:?}, {}", op, e))?;
            Ok(Some((t, m)))
        }
        (Err(u), None) => {
            same(&u, m).map_err(|e| format!("after the refused {:?}, {}", op, e))?;
            if u != *t {
                return Err(format!("after the refused {:?}, the stack differs from the one before", op));
            }
            Ok(None)
        }
        (Ok(_), None) => Err(format!("{:?} is not refused", op)),
        (Err(_), Some(_)) => Err(format!("{:?} is refused", op)),
    }
}

fn explore(t: &TreeStack<u8>, m: &Model, ops: &[Op], depth: usize, path: &mut Vec<Op>, obs: &mut Obs) -> Verdict {
    if depth == 0 {
        obs.trace();
        return Ok(());
    }
    for op in ops {
        path.push(*op);
        obs.step();
        if let Some((t2, m2)) = perform(t, m, *op).map_err(|e| format!("{:?}: {}", path, e))? {
            obs.state(&m2);
            obs.outcome(&(m2.nodes.len(), &m2.pointer));
            if m2.nodes.len() >= 3 && m2.pointer != *m2.nodes.keys().last().unwrap() {
                obs.nontrivial();
                obs.note(|| format!("{:?} at {:?}", m2.nodes, m2.pointer));
            }
            if depth > 1 {
                inspect(&t2, &m2).map_err(|e| format!("{:?}: {}", path, e))?;
            }
            explore(&t2, &m2, ops, depth - 1, path, obs)?;
        }
        // whatever was done to copies, the stack itself is as before
        same(t, m).map_err(|e| format!("after {:?}, the stack before it has changed: {}", path, e))?;
        path.pop();
    }
    Ok(())
}

fn sequences(name: &'static str, positions: usize, values: u8, depth: usize) -> Suite {
    let ops = operations(positions, values);
    let n = ops.len() as u64;
    let get = {
        let ops = ops.clone();
        move |i: u64| -> Vec<Op> { vec![ops[(i / n) as usize], ops[(i % n) as usize]] }
    };
    let get2 = get.clone();
    Suite::new(
        name,
        format!(
            "all sequences of {} of {} operations (push, push_with, push_next, up, down, set; {} positions, {} values) \
             that start with the two shown (sequences end with a refused operation); after each one the stack, the \
             stacks above and the mapped stack are compared, and all earlier stacks once more; non-trivial: at least \
             three nodes and the pointer is not at the last one",
            depth,
            ops.len(),
            positions,
            values
        ),
        n * n,
        move |i, o| {
            let (mut t, mut m) = (TreeStack::new(0), Model::new(0));
            same(&t, &m)?;
            let first = get(i);
            for op in &first {
                match perform(&t, &m, *op).map_err(|e| format!("{:?}: {}", first, e))? {
                    None => return Ok(()),
                    Some((t2, m2)) => {
                        t = t2;
                        m = m2
                    }
                }
            }
            inspect(&t, &m)?;
            explore(&t, &m, &ops, depth - 2, &mut get(i), o)
        },
        move |i| format!("{:?}", get2(i)),
    )
}

/// All stacks that are reachable with up to `depth` operations, each with all ways to reach it
/// as separate stacks up to `ways`.
pub fn reachable(positions: usize, values: u8, depth: usize, ways: usize) -> Vec<(Model, Vec<TreeStack<u8>>)> {
    let ops = operations(positions, values);
    let mut all: BTreeMap<Model, Vec<TreeStack<u8>>> = BTreeMap::new();
    let mut layer = vec![(TreeStack::new(0), Model::new(0))];
    all.insert(Model::new(0), vec![TreeStack::new(0)]);
    for _ in 0..depth {
        let mut next = Vec::new();
        for (t, m) in layer {
            for op in &ops {
                if let Ok(Some((t2, m2))) = perform(&t, &m, *op) {
                    let known = all.entry(m2.clone()).or_default();
                    if known.len() < ways {
                        known.push(t2.clone());
                        next.push((t2, m2));
                    }
                }
            }
        }
        layer = next;
    }
    all.into_iter().collect()
}

pub fn instructions(positions: usize, values: u8) -> Vec<TreeStackInstruction<u8>> {
    use TreeStackInstruction::*;
    let mut v = Vec::new();
    for current_val in 0..values {
        for new_val in 0..values {
            for n in 0..positions {
                v.push(Push { n, current_val, new_val });
            }
            for old_val in 0..values {
                v.push(Down { current_val, old_val, new_val });
                for n in 0..positions {
                    v.push(Up { n, current_val, old_val, new_val });
                }
            }
        }
    }
    v
}

/// A stack is rebuilt from its model (so that the cases need no shared stacks).
pub fn build(m: &Model) -> TreeStack<u8> {
    fn fill(t: TreeStack<u8>, at: &Address, m: &Model) -> TreeStack<u8> {
        let mut t = t;
        let here = Model { nodes: m.nodes.clone(), pointer: at.clone() };
        for n in here.children() {
            let a = here.child(n);
            t = t.push(n, m.nodes[&a]).expect("push");
            t = fill(t, &a, m);
            t = t.down().expect("down");
        }
        t
    }
    let mut t = fill(TreeStack::new(m.nodes[&vec![]]), &vec![], m);
    for n in &m.pointer {
        t = t.up(*n).expect("up");
    }
    t
}

fn apply(tier: Tier) -> Suite {
    let states: Vec<Model> = reachable(3, 2, tier.pick(4, 5), 1).into_iter().map(|(m, _)| m).collect();
    Suite::over(
        "instructions",
        "all stacks reachable with up to 4 (5) operations over 3 positions and 2 values × all instructions over 4 positions \
         and 3 values; non-trivial: an instruction applies",
        states,
        |m, o| {
            let t = build(m);
            same(&t, m)?;
            for i in instructions(4, 3) {
                let got = i.apply(t.clone());
                let e = m.apply(&i);
                o.step();
                match (&got[..], &e) {
                    ([], None) => (),
                    ([g], Some(e)) => {
                        same(g, e).map_err(|e| format!("{:?}: {}", i, e))?;
                        if *g != build(e) {
                            return Err(format!("{:?} yields {:?}, which is not equal to {:?}", i, g, build(e)));
                        }
                        o.nontrivial();
                    }
                    _ => return Err(format!("{:?} yields {} stacks", i, got.len())),
                }
                o.outcome(&e);
                same(&t, m).map_err(|e| format!("after {:?}, the stack itself: {}", i, e))?;
            }
            o.trace();
            o.state(m);
            Ok(())
        },
        |m| format!("{:?} at {:?}", m.nodes, m.pointer),
    )
}

fn compare(tier: Tier) -> Suite {
    let depth = tier.pick(4, 5);
    let states: Vec<Model> = reachable(3, 2, depth, 1).into_iter().map(|(m, _)| m).collect();
    let n = states.len();
    const BLOCK: usize = 50;
    Suite::new(
        "pairs",
        "all pairs of stacks reachable with up to 4 (5) operations over 3 positions and 2 values (a case compares 50 stacks \
         with all of them): equal iff they are the same, comparisons agree with each other and are antisymmetric",
        n.div_ceil(BLOCK) as u64,
        move |i, o| {
            let all: Vec<TreeStack<u8>> = states.iter().map(build).collect();
            for a in i as usize * BLOCK..(i as usize * BLOCK + BLOCK).min(n) {
                let t = build(&states[a]);
                for (b, t2) in all.iter().enumerate() {
                    let c = t.cmp(t2);
                    if (t == *t2) != (a == b) || (c == Ordering::Equal) != (a == b) {
                        return Err(format!("{:?} compared with {:?}: equal: {}, {:?}", states[a], states[b], t == *t2, c));
                    }
                    if t2.cmp(&t) != c.reverse() || t.partial_cmp(t2) != Some(c) {
                        return Err(format!(
                            "{:?} compared with {:?}: {:?}, partially {:?}, conversely {:?}",
                            states[a],
                            states[b],
                            c,
                            t.partial_cmp(t2),
                            t2.cmp(&t)
                        ));
                    }
                }
                o.steps(n);
                o.trace();
                o.state(&states[a]);
                o.outcome(&(a, 0));
                o.nontrivial();
            }
            Ok(())
        },
        move |i| format!("stacks from number {}", i as usize * BLOCK),
    )
}

/// An antisymmetric and total relation is transitive iff no two elements have the same number
/// of smaller ones.
fn order(tier: Tier) -> Suite {
    let depth = tier.pick(4, 5);
    Suite::new(
        "order",
        "all stacks reachable with up to 4 (5) operations over 3 positions and 2 values: no two have the same number of \
         smaller stacks among them, so that (with the suite pairs) comparison is a total order",
        1,
        move |_, o| {
            let all: Vec<TreeStack<u8>> = reachable(3, 2, depth, 1).iter().map(|(m, _)| build(m)).collect();
            let mut owner = vec![None; all.len()];
            for t in &all {
                let smaller = all.iter().filter(|u| **u < *t).count();
                if let Some(u) = owner[smaller].replace(t) {
                    return Err(format!("{:?} and {:?} have the same number of smaller stacks", t, u));
                }
                o.steps(all.len());
                o.outcome(&smaller);
            }
            o.trace();
            o.nontrivial();
            Ok(())
        },
        |_| "all of them".to_string(),
    )
    .limit(800)
}

fn ways(tier: Tier) -> Suite {
    let depth = tier.pick(6, 7);
    let ops = operations(2, 2);
    let n = ops.len();
    Suite::new(
        "ways",
        "all stacks that are reached in several ways with up to 6 (7) operations over 2 positions and 2 values, one case for \
         each first operation: all ways to reach one give equal stacks; non-trivial: a stack is reached in several ways",
        n as u64,
        move |i, o| {
            let mut known: BTreeMap<Model, TreeStack<u8>> = BTreeMap::new();
            let mut layer = Vec::new();
            if let Some(x) = perform(&TreeStack::new(0), &Model::new(0), operations(2, 2)[i as usize])? {
                layer.push(x);
            }
            for _ in 1..depth {
                let mut next = Vec::new();
                for (t, m) in &layer {
                    for op in &operations(2, 2) {
                        if let Some((t2, m2)) = perform(t, m, *op)? {
                            o.step();
                            if let Some(k) = known.get(&m2) {
                                if *k != t2 || k.cmp(&t2) != Ordering::Equal || k.partial_cmp(&t2) != Some(Ordering::Equal) {
                                    return Err(format!("{:?} is reached as {:?} and as {:?}", m2, k, t2));
                                }
                                o.nontrivial();
                            } else {
                                known.insert(m2.clone(), t2.clone());
                            }
                            next.push((t2, m2));
                        }
                    }
                }
                layer = next;
            }
            for m in known.keys() {
                o.state(m);
            }
            o.outcome(&known.len());
            o.trace();
            Ok(())
        },
        move |i| format!("{:?}", ops[i as usize]),
    )
    .limit(600)
}

/// Deep, wide and sparse stacks.
fn large(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(24usize, 40)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
        for kind in 0..4 {
            cases.push((n, kind));
        }
    }
    Suite::over(
        "large",
        "chains, rows, sparse rows and chains with side branches of up to 24 (40) and some of up to 300 nodes: built, left to \
         the bottom, entered again, changed at the top and compared at every step",
        cases,
        |&(n, kind), o| {
            let (mut t, mut m) = (TreeStack::new(0), Model::new(0));
            let mut ops = Vec::new();
            for i in 0..n {
                let v = (i % 7) as u8;
                match kind {
                    0 => ops.push(Op::Push(i % 3, v)),
                    1 => ops.extend([Op::PushNext(v), Op::Down]),
                    2 => ops.extend([Op::Push(2 * i + 1, v), Op::Down]),
                    _ => ops.extend([Op::Push(1, v), Op::Down, Op::PushNext(v)]),
                }
            }
            ops.extend(vec![Op::Down; if kind == 0 || kind == 3 { n } else { 0 }]);
            let back: Vec<Op> = match kind {
                0 => (0..n).map(|i| Op::Up(i % 3)).collect(),
                1 => vec![Op::Up(n / 2)],
                2 => vec![Op::Up(2 * (n / 2) + 1)],
                _ => (0..n).map(|_| Op::Up(0)).collect(),
            };
            ops.extend(back);
            ops.push(Op::Set(9));
            ops.push(Op::Up(0));
            ops.push(Op::PushNext(8));
            ops.extend(vec![Op::Down; 3]);
            let every = ops.len() / 40 + 1;
            for (i, op) in ops.iter().enumerate() {
                // comparing is expensive, so do it at some of the steps and at the end
                if i % every == 0 || i + 8 > ops.len() {
                    if let Some((t2, m2)) = perform(&t, &m, *op).map_err(|e| format!("step {}: {}", i, e.chars().take(300).collect::<String>()))? {
                        t = t2;
                        m = m2;
                    }
                } else {
                    let (t2, m2) = match *op {
                        Op::Push(n, a) => (t.push(n, a), m.push(n, a)),
                        Op::PushNext(a) => (Ok(t.push_next(a)), m.push(m.free(), a)),
                        Op::Up(n) => (t.up(n), m.up(n)),
                        Op::Down => (t.down(), m.down()),
                        Op::Set(a) => (Ok(t.set(a)), Some(m.set(a))),
                    };
                    if t2.is_ok() != m2.is_some() {
                        return Err(format!("step {}: {:?} is accepted: {}", i, op, t2.is_ok()));
                    }
                    t = t2.unwrap_or_else(|t| t);
                    m = m2.unwrap_or(m);
                }
                o.step();
            }
            inspect(&t, &m).map_err(|e| e.chars().take(400).collect::<String>())?;
            if t != build(&m) || t.cmp(&build(&m)) != Ordering::Equal || t == build(&m.set(20)) {
                return Err("equality is wrong".into());
            }
            o.trace();
            o.state(&(n, kind));
            o.outcome(&(n, kind));
            if n > 2 {
                o.nontrivial();
            }
            Ok(())
        },
        |c| format!("{:?} (nodes, kind)", c),
    )
}

pub fn check() -> Check {
    Check {
        id: "C22",
        assumptions: vec![],
        build: |t: Tier| {
            vec![
                large(t),
                sequences("sequences-3-2", 3, 2, t.pick(7, 8)),
                sequences("sequences-2-1", 2, 1, t.pick(9, 10)),
                apply(t),
                compare(t),
                order(t),
                ways(t),
            ]
        },
    }
}
