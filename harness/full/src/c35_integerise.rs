//! Integerisation of storages, instructions and transitions; transitions on configurations.

use crate::c22_tree_stack::{build, reachable, Model};
use integeriser::{HashIntegeriser, Integeriser};
use mc_common::enumerate::{permutations, words};
use mc_common::{hash_of, Check, Obs, Suite, Tier, Verdict};
use rustomata::automata::finite_state_automaton::FiniteStateInstruction;
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackInstruction};
use rustomata::recognisable::{Configuration, Instruction, Transition};
use rustomata::util::integerisable::{Integerisable1, Integerisable2};
use rustomata::util::push_down::Pushdown;
use std::cmp::Ordering;
use std::fmt::Debug;

/// All integerisers that already know some of the symbols (and one foreign one), in any order.
fn integerisers(symbols: u8) -> Vec<HashIntegeriser<u8>> {
    let mut v = Vec::new();
    let pool: Vec<u8> = (0..symbols).chain([200]).collect();
    for s in mc_common::enumerate::subsets(&pool, 0, pool.len()) {
        for p in permutations(&s) {
            let mut i = HashIntegeriser::new();
            for x in p {
                i.integerise(x);
            }
            v.push(i);
        }
    }
    v
}

fn round_trip<X>(x: &X, start: &HashIntegeriser<u8>) -> Result<(X::AInt, HashIntegeriser<u8>), String>
where
    X: Integerisable1<I = HashIntegeriser<u8>> + PartialEq + Debug,
    X::AInt: PartialEq + Debug,
{
    let known: Vec<u8> = start.values().clone();
    let mut i = start.clone();
    let int = x.integerise(&mut i);
    if i.values()[..known.len()] != known[..] {
        return Err(format!("numbers change: {:?}, before {:?}", i.values(), known));
    }
    let back = X::un_integerise(&int, &i);
    if back != *x {
        return Err(format!("integerised and back, it is {:?}", back));
    }
    let size = i.size();
    if x.integerise(&mut i) != int || i.size() != size {
        return Err("integerising it once more yields something else".into());
    }
    // more symbols do not change what the numbers stand for
    i.integerise(250);
    if X::un_integerise(&int, &i) != *x {
        return Err("with more symbols, it comes back as something else".into());
    }
    Ok((int, i))
}

fn int(i: &HashIntegeriser<u8>, x: u8) -> usize {
    i.find_key(&x).expect("a number")
}

fn tree_stacks(tier: Tier) -> Suite {
    let states: Vec<Model> = reachable(2, 2, tier.pick(5, 6), 1).into_iter().map(|(m, _)| m).collect();
    Suite::over(
        "tree-stacks",
        "all tree stacks reachable with up to 5 (6) operations over 2 positions and 2 values × all instructions over them × all \
         integerisers that know some of the values in some order: round trips, and integerised instructions yield the \
         integerised stacks; non-trivial: an instruction applies",
        states,
        |m, o| {
            let t = build(m);
            for start in integerisers(2) {
                let (ti, it) = round_trip::<TreeStack<u8>>(&t, &start)?;
                let e = t.map(&mut |x| int(&it, *x));
                if ti != e {
                    return Err(format!("integerised, it is {:?}", ti));
                }
                for i in tree_stack_instructions() {
                    let (ii, it2) = round_trip::<TreeStackInstruction<u8>>(&i, &it).map_err(|e| format!("{:?}: {}", i, e))?;
                    let a: Vec<TreeStack<usize>> = i.apply(t.clone()).iter().map(|t| t.map(&mut |x| int(&it2, *x))).collect();
                    let b = ii.apply(ti.clone());
                    if a != b {
                        return Err(format!("{:?} yields {:?} with symbols and {:?} with numbers", i, a, b));
                    }
                    o.step();
                    if !a.is_empty() {
                        o.nontrivial();
                    }
                }
                o.trace();
            }
            o.state(m);
            o.outcome(m);
            Ok(())
        },
        |m| format!("{:?}", m),
    )
}

fn tree_stack_instructions() -> Vec<TreeStackInstruction<u8>> {
    use TreeStackInstruction::*;
    let mut v = Vec::new();
    for current_val in 0..2 {
        for new_val in 0..3 {
            for n in 0..2 {
                v.push(Push { n, current_val, new_val });
            }
            for old_val in 0..2 {
                v.push(Down { current_val, old_val, new_val });
                for n in 0..2 {
                    v.push(Up { n, current_val, old_val, new_val });
                }
            }
        }
    }
    v
}

fn pushdowns(tier: Tier) -> Suite {
    let all: Vec<Vec<u8>> = words(&[0u8, 1, 2], tier.pick(7, 8));
    Suite::over(
        "pushdowns",
        "all pushdowns of both kinds of up to 7 (8) of three symbols × all replacements of up to two by up to two × all \
         integerisers that know some of the symbols in some order; non-trivial: a replacement applies",
        all,
        |m, o| {
            let p = PushDown::from(m.clone());
            let q = Pushdown::from(&m[..]);
            for start in integerisers(3) {
                let (pi, it) = round_trip::<PushDown<u8>>(&p, &start)?;
                let (qi, it_q) = round_trip::<Pushdown<u8>>(&q, &start)?;
                if !pi.iter().cloned().eq(m.iter().map(|x| int(&it, *x))) || !qi.iter().eq(m.iter().map(|x| int(&it_q, *x))) {
                    return Err(format!("integerised, they are {:?} and {:?}", pi, qi));
                }
                for (f, t) in replacements() {
                    let i = PushDownInstruction::Replace { current_val: f, new_val: t };
                    let (ii, it2) = round_trip::<PushDownInstruction<u8>>(&i, &it).map_err(|e| format!("{:?}: {}", i, e))?;
                    let a: Vec<PushDown<usize>> = i.apply(p.clone()).iter().map(|s| s.map(&|x| int(&it2, *x))).collect();
                    let b = ii.apply(pi.clone());
                    if a != b {
                        return Err(format!("{:?} yields {:?} with symbols and {:?} with numbers", i, a, b));
                    }
                    o.step();
                    if !a.is_empty() {
                        o.nontrivial();
                    }
                }
                o.trace();
            }
            o.state(m);
            o.outcome(m);
            Ok(())
        },
        |m| format!("{:?}", m),
    )
}

/// Long instructions and words, and many symbols.
fn long(tier: Tier) -> Suite {
    let mut cases: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = Vec::new();
    let w = words(&[0u8, 1, 2], tier.pick(4, 5));
    for f in &w {
        for t in &w {
            cases.push((f.clone(), t.clone(), [&f[..], t].concat()));
        }
    }
    for n in (5..=tier.pick(60u8, 200)).chain([127, 128, 129, 200]) {
        let up: Vec<u8> = (0..n).collect();
        let down: Vec<u8> = (0..n).rev().collect();
        let zero = vec![0; n as usize];
        for f in [&up, &down, &zero] {
            for t in [&up, &down, &zero, &vec![]] {
                cases.push((f.clone(), t.clone(), t.iter().map(|x| 255 - x).collect()));
            }
        }
    }
    Suite::over(
        "long",
        "all replacements of up to four (five) of three symbols by up to as many, and replacements of up to 60 (200) symbols, by transitions that          read as much, with an empty and a full integeriser, applied to pushdowns they apply to and not; non-trivial: a replacement applies",
        cases,
        |(f, t, word), o| {
            let i = PushDownInstruction::Replace { current_val: f.clone(), new_val: t.clone() };
            let full = (0..=255).rev().fold(HashIntegeriser::new(), |mut i, x| {
                i.integerise(x);
                i
            });
            for start in [HashIntegeriser::new(), full] {
                let mut below: Vec<u8> = f.clone();
                below.reverse();
                for p in [[vec![3], below.clone()].concat(), below, [vec![3], f.clone()].concat(), vec![3]] {
                    let p = PushDown::from(p);
                    let (pi, it) = round_trip::<PushDown<u8>>(&p, &start)?;
                    let (ii, it2) = round_trip::<PushDownInstruction<u8>>(&i, &it).map_err(|e| format!("{:?}: {}", i, e))?;
                    let a: Vec<PushDown<usize>> = i.apply(p.clone()).iter().map(|s| s.map(&|x| int(&it2, *x))).collect();
                    let b = ii.apply(pi.clone());
                    if a != b {
                        return Err(format!("{:?} yields {:?} with symbols and {:?} with numbers", i, a, b));
                    }
                    o.step();
                    if !a.is_empty() {
                        o.nontrivial();
                    }
                }
                let t: PTrans = Transition { word: word.clone(), weight: 3, instruction: i.clone() };
                let (mut i1, mut i2) = (start.clone(), start.clone());
                let ti = t.integerise(&mut i1, &mut i2);
                if ti.weight != 3 || !ti.word.iter().cloned().eq(word.iter().map(|x| int(&i1, *x))) || ti.instruction != i.integerise(&mut i2.clone()) {
                    return Err(format!("the transition is integerised to {:?}", ti));
                }
                let b: PTrans = Integerisable2::un_integerise(&ti, &i1, &i2);
                if b.word != t.word || b.weight != 3 || b.instruction != t.instruction {
                    return Err(format!("the transition comes back as {:?}", b));
                }
            }
            o.trace();
            o.state(&(f, t));
            o.outcome(&(f.len(), t.len()));
            Ok(())
        },
        |(f, t, w)| format!("{:?} by {:?}, reading {:?}", f, t, w),
    )
}

/// Instructions and tree stacks with large positions, and tree stacks that are deep.
fn positions(tier: Tier) -> Suite {
    let mut all: Vec<usize> = (0..tier.pick(300, 2000)).collect();
    for p in 9..64 {
        all.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
    }
    all.push(usize::MAX);
    Suite::over(
        "positions",
        "tree stacks with one position n (below 2^17), and n deep (up to 300), and instructions there, for all n up to 299 (1999) and around all powers of two; non-trivial: all",
        all,
        |&n, o| {
            use TreeStackInstruction::*;
            let root = TreeStack::new(0u8);
            let mut stacks = vec![root.clone()];
            // (a stack has room for all positions up to n)
            let up = if n < 1 << 17 { Push { n, current_val: 0, new_val: 1 }.apply(root.clone()) } else { vec![] };
            stacks.extend(up.clone());
            stacks.extend(up.into_iter().flat_map(|s| Down { current_val: 1, old_val: 0, new_val: 2 }.apply(s)));
            if n < 300 {
                let mut s = root;
                for k in 0..n {
                    s = Push { n: k % 3, current_val: if k == 0 { 0 } else { 1 }, new_val: 1 }.apply(s).pop().ok_or("a push does not apply")?;
                }
                stacks.push(s);
            }
            let mut instructions = Vec::new();
            for current_val in 0..3 {
                for m in [n, n ^ 1, n / 2, n & 255, n & 65535] {
                    instructions.push(Push { n: m, current_val, new_val: 3 });
                    instructions.push(Up { n: m, current_val, old_val: 1, new_val: 3 });
                }
                instructions.push(Down { current_val, old_val: 0, new_val: 3 });
                instructions.push(Down { current_val, old_val: 1, new_val: 3 });
            }
            for start in [HashIntegeriser::new(), integerisers(3).pop().unwrap()] {
                for t in &stacks {
                    let (ti, it) = round_trip::<TreeStack<u8>>(t, &start)?;
                    if ti != t.map(&mut |x| int(&it, *x)) {
                        return Err(format!("{:?} is integerised to {:?}", t, ti));
                    }
                    for i in &instructions {
                        let pushes = matches!(i, Push { n, .. } if *n >= 1 << 17);
                        let (ii, it2) = round_trip::<TreeStackInstruction<u8>>(i, &it).map_err(|e| format!("{:?}: {}", i, e))?;
                        if pushes {
                            continue;
                        }
                        let a: Vec<TreeStack<usize>> = i.apply(t.clone()).iter().map(|t| t.map(&mut |x| int(&it2, *x))).collect();
                        let b = ii.apply(ti.clone());
                        if a != b {
                            return Err(format!("{:?} yields {:?} with symbols and {:?} with numbers", i, a, b));
                        }
                        o.step();
                    }
                }
            }
            o.nontrivial();
            o.trace();
            o.state(&n);
            o.outcome(&n);
            Ok(())
        },
        |n| format!("{}", n),
    )
    .limit(60)
}

fn replacements() -> Vec<(Vec<u8>, Vec<u8>)> {
    let w = words(&[0u8, 2], 2);
    let mut v = Vec::new();
    for f in &w {
        for t in &w {
            v.push((f.clone(), t.clone()));
        }
    }
    v
}

type PTrans = Transition<PushDownInstruction<u8>, u8, i8>;

fn transitions(tier: Tier) -> Suite {
    let mut all: Vec<PTrans> = Vec::new();
    for word in words(&[0u8, 1], tier.pick(2, 3)) {
        for (f, t) in replacements() {
            for weight in [0i8, 2, 3] {
                all.push(Transition {
                    word: word.clone(),
                    weight,
                    instruction: PushDownInstruction::Replace { current_val: f.clone(), new_val: t.clone() },
                });
            }
        }
    }
    Suite::over(
        "transitions",
        "all transitions that read up to 2 (3) symbols, replace up to two by up to two, with three weights × all integerisers for \
         terminals and for stack symbols; non-trivial: symbols on both sides",
        all,
        |t, o| {
            for s1 in integerisers(2) {
                for s2 in [HashIntegeriser::new(), integerisers(3).pop().unwrap()] {
                    let (mut i1, mut i2) = (s1.clone(), s2.clone());
                    let ti = t.integerise(&mut i1, &mut i2);
                    if ti.weight != t.weight
                        || !ti.word.iter().cloned().eq(t.word.iter().map(|x| int(&i1, *x)))
                        || ti.instruction != t.instruction.integerise(&mut i2.clone())
                    {
                        return Err(format!("integerised, it is {:?}", ti));
                    }
                    let b: PTrans = Integerisable2::un_integerise(&ti, &i1, &i2);
                    if b.word != t.word || b.weight != t.weight || b.instruction != t.instruction {
                        return Err(format!("integerised and back, it is {:?}", b));
                    }
                    o.step();
                }
            }
            o.trace();
            o.state(&(&t.word, t.weight, &t.instruction));
            o.outcome(&(&t.word, t.weight, &t.instruction));
            if !t.word.is_empty() {
                o.nontrivial();
            }
            Ok(())
        },
        |t| format!("{:?}", t),
    )
}

/// Instructions of finite-state automata, and tree stacks of up to 250 nodes.
fn states(tier: Tier) -> Suite {
    let n = tier.pick(60u8, 250);
    Suite::over(
        "chains",
        "for all n up to 60 (250): instructions of finite-state automata between states up to n, and tree stacks that are a path of n, a root with n children, or a          path of roots with two children; with an empty integeriser and one that knows the numbers in reverse; non-trivial: n > 1",
        (1..=n).collect(),
        |&n, o| {
            let full = (0..=255).rev().fold(HashIntegeriser::new(), |mut i, x| {
                i.integerise(x);
                i
            });
            for start in [HashIntegeriser::new(), full] {
                for (p, q) in [(0, n), (n, 0), (n, n), (n - 1, n)] {
                    let i = crate::c26_fsa::instruction(p, q);
                    let (ii, it) = round_trip::<FiniteStateInstruction<u8>>(&i, &start)?;
                    for s in [p, q, 254] {
                        let (si, it) = (it.clone().integerise(s), {
                            let mut it = it.clone();
                            it.integerise(s);
                            it
                        });
                        let a: Vec<usize> = i.apply(s).into_iter().map(|x| int(&it, x)).collect();
                        if ii.apply(si) != a {
                            return Err(format!("{:?} yields {:?} with symbols and {:?} with numbers", i, a, ii.apply(si)));
                        }
                        o.step();
                    }
                }
                for kind in 0..3 {
                    let mut t = TreeStack::new(0u8);
                    for i in 1..=n {
                        t = match kind {
                            0 => t.push(i as usize % 4, i),
                            1 => t.push(i as usize * 2, i).and_then(|t| t.down()),
                            _ => t.push(1, i).and_then(|t| t.down()).and_then(|t| t.push(0, i / 2)),
                        }
                        .map_err(|t| format!("{:?}", t))?;
                    }
                    let mut all = vec![t.clone()];
                    while let Ok(d) = all[all.len() - 1].clone().down() {
                        all.push(d);
                        if all.len() > 4 {
                            break;
                        }
                    }
                    all.extend(t.clone().ups());
                    for t in all.iter().take(12) {
                        let (ti, it) = round_trip::<TreeStack<u8>>(t, &start)?;
                        let (tree, at) = t.to_tree();
                        if ti.to_tree() != (tree.into_iter().map(|(a, v)| (a, int(&it, v))).collect(), at) {
                            return Err(format!("kind {}: integerised, it is {:?}", kind, ti));
                        }
                        o.step();
                    }
                }
            }
            o.trace();
            o.state(&n);
            o.outcome(&n);
            if n > 1 {
                o.nontrivial();
            }
            Ok(())
        },
        |n| n.to_string(),
    )
}

pub fn c35() -> Check {
    Check {
        id: "C35",
        assumptions: vec!["integeriser is a stand-in for the crate of that name, which is not available"],
        build: |t: Tier| vec![tree_stacks(t), pushdowns(t), long(t), positions(t), transitions(t), states(t)],
    }
}

// ---------------------------------------------------------------------------------------------
// Transitions on configurations

fn check_apply<I>(
    t: &Transition<I, u8, i64>,
    c: &Configuration<I::Storage, u8, i64>,
    o: &mut Obs,
) -> Verdict
where
    I: Instruction + Debug,
    I::Storage: Clone + PartialEq + Debug,
{
    let got = t.apply(c);
    let e: Vec<(Vec<u8>, I::Storage, i64)> = if c.word.len() >= t.word.len() && c.word[..t.word.len()] == t.word[..] {
        t.instruction.apply(c.storage.clone()).into_iter().map(|s| (c.word[t.word.len()..].to_vec(), s, c.weight * t.weight)).collect()
    } else {
        Vec::new()
    };
    o.step();
    if got.len() != e.len() || got.iter().zip(&e).any(|(g, e)| g.word != e.0 || g.storage != e.1 || g.weight != e.2) {
        return Err(format!("{:?} yields {:?}, not {:?}", t, got, e));
    }
    if !e.is_empty() {
        o.nontrivial();
        o.outcome(&(e[0].0.len(), e[0].2));
    }
    Ok(())
}

fn applications(tier: Tier) -> Suite {
    let mut cases: Vec<(Vec<u8>, i64)> = Vec::new();
    for w in words(&[0u8, 1, 2], tier.pick(5, 6)) {
        for weight in [1, 3] {
            cases.push((w.clone(), weight));
        }
    }
    let n = tier.pick(3, 4);
    Suite::over(
        "applications",
        "all configurations that have up to 5 (6) of three symbols to read, with pushdowns of up to three symbols and the tree \
         stacks reachable with two operations × all transitions that read up to 3 (4) symbols; non-trivial: one applies",
        cases,
        move |(word, weight), o| {
            let stacks: Vec<Vec<u8>> = words(&[0u8, 2], 3);
            let read = words(&[0u8, 1, 2], n);
            for r in &read {
                for s in &stacks {
                    let c = Configuration { word: word.clone(), storage: PushDown::from(s.clone()), weight: *weight };
                    for (f, t) in [(vec![0], vec![]), (vec![0], vec![2, 0]), (vec![2, 0], vec![0]), (vec![], vec![])] {
                        let i = PushDownInstruction::Replace { current_val: f, new_val: t };
                        check_apply(&Transition { word: r.clone(), weight: 7, instruction: i }, &c, o)?;
                    }
                }
                for (m, _) in reachable(2, 2, 1, 1) {
                    let c = Configuration { word: word.clone(), storage: build(&m), weight: *weight };
                    for i in tree_stack_instructions() {
                        check_apply(&Transition { word: r.clone(), weight: 2, instruction: i }, &c, o)?;
                    }
                }
            }
            o.trace();
            o.state(&(word, weight));
            Ok(())
        },
        |(w, x)| format!("reads {:?}, weight {}", w, x),
    )
}

fn transition_order(_: Tier) -> Suite {
    let mut all: Vec<PTrans> = Vec::new();
    for word in words(&[0u8, 1], 2) {
        for (f, t) in replacements().into_iter().filter(|(f, t)| f.len() < 2 && t.len() < 2) {
            for weight in [0i8, 2, 3] {
                all.push(Transition { word: word.clone(), weight, instruction: PushDownInstruction::Replace { current_val: f.clone(), new_val: t.clone() } });
            }
        }
    }
    let copy = all.clone();
    Suite::over(
        "order",
        "all pairs of transitions that read up to two symbols, with replacements of up to one symbol by up to one and three weights: heavier is greater, \
         equality and hash ignore the weight, comparison is total, antisymmetric and transitive",
        all,
        move |a, o| {
            for b in &copy {
                let c = a.cmp(b);
                let same = a.word == b.word && a.instruction == b.instruction;
                if (a == b) != same || same && hash_of(a) != hash_of(b) {
                    return Err(format!("equal to {:?}: {}, or the hash values differ", b, a == b));
                }
                if (c == Ordering::Equal) != (same && a.weight == b.weight)
                    || b.cmp(a) != c.reverse()
                    || a.partial_cmp(b) != Some(c)
                    || a.weight != b.weight && c != a.weight.cmp(&b.weight)
                {
                    return Err(format!("compared with {:?}: {:?}", b, c));
                }
                if c == Ordering::Greater {
                    for d in copy.iter().filter(|d| b.cmp(d) == Ordering::Greater) {
                        if a.cmp(d) != Ordering::Greater {
                            return Err(format!("greater than {:?}, which is greater than {:?}, but not than that", b, d));
                        }
                    }
                }
                o.step();
            }
            o.trace();
            o.nontrivial();
            o.state(&(&a.word, a.weight, &a.instruction));
            o.outcome(&(&a.word, a.weight));
            Ok(())
        },
        |t| format!("{:?}", t),
    )
}

pub fn c37() -> Check {
    Check { id: "C37", assumptions: vec![], build: |t: Tier| vec![applications(t), transition_order(t)] }
}
