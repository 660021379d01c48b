//! Automata are made of transitions and an initial storage: what they list, which sequences of
//! transitions are their runs, what they recognise.

use crate::c22_tree_stack::{build, instructions, reachable};
use crate::c26_fsa::instruction;
use crate::parse::{collect, compare, Cost, Dyadic};
use mc_common::enumerate::{digits, words, Choices};
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::automaton::{recognise, Automaton};
use rustomata::recognisable::{Instruction, Item, Transition};
use rustomata::util::push_down::Pushdown;
use std::collections::BTreeMap;
use std::fmt::Debug;

type Arrow<I> = Transition<I, u8, Dyadic>;
type Fsa = FiniteStateAutomaton<u8, u8, Dyadic>;
type Pda = PushDownAutomaton<u8, u8, Dyadic>;
type Tsa = TreeStackAutomaton<u8, u8, Dyadic>;

const BUDGET: u64 = 20_000;

/// Reads a transition, its instruction by its text.
fn key<I: Debug>(t: &Arrow<I>) -> (Vec<u8>, String) {
    (t.word.clone(), format!("{:?}", t.instruction))
}

fn listed<I: Debug>(ts: impl IntoIterator<Item = Arrow<I>>) -> BTreeMap<(Vec<u8>, String), Vec<Dyadic>> {
    let mut m: BTreeMap<_, Vec<Dyadic>> = BTreeMap::new();
    for t in ts {
        m.entry(key(&t)).or_default().push(t.weight);
    }
    m.values_mut().for_each(|v| v.sort());
    m
}

/// Lists are compared in any order; a pushdown automaton adds the weights of equal transitions.
fn lists<A, I>(make: &dyn Fn(Vec<Arrow<I>>, I::Storage) -> A, ts: &[Arrow<I>], initial: &I::Storage, merged: bool) -> Result<A, String>
where
    A: Automaton<u8, Dyadic, I = I>,
    I: Instruction + Clone + Debug,
    I::Storage: Clone + Eq + Debug,
{
    let mut expected = listed(ts.iter().cloned());
    if merged {
        expected.values_mut().for_each(|v| *v = vec![v.iter().fold(num_traits::Zero::zero(), |a: Dyadic, b| a + *b)]);
    }
    let a = make(ts.to_vec(), initial.clone());
    let b = make(a.transitions().collect(), a.initial());
    for (x, what) in [(&a, "the automaton"), (&b, "the automaton that is made of its list")] {
        let got = listed(x.transitions());
        if got != expected {
            return Err(format!("{} lists {:?}, not {:?}", what, got, expected));
        }
        if x.initial() != *initial {
            return Err(format!("{} starts with {:?}", what, x.initial()));
        }
    }
    Ok(a)
}

/// All sequences of up to `length` of the given transitions.
fn confirms<A, I>(a: &A, ts: &[Arrow<I>], initial: &I::Storage, terminal: bool, length: u32, obs: &mut Obs) -> Verdict
where
    A: Automaton<u8, Dyadic, I = I>,
    I: Instruction + Clone + Debug + PartialEq,
    I::Storage: Clone + Eq + Debug,
{
    for run in words(ts, length) {
        let mut storages = if run.is_empty() && !terminal { vec![] } else { vec![initial.clone()] };
        let mut weight = num_traits::One::one();
        for t in &run {
            weight = weight * t.weight;
            storages = storages.into_iter().flat_map(|s| t.instruction.apply(s)).collect();
        }
        let items = a.check_run(Pushdown::from(&run[..]));
        let ok = items.len() == storages.len()
            && items.iter().zip(&storages).all(|(Item(c, r), s)| {
                c.word.is_empty() && c.storage == *s && c.weight == weight && r.iter().map(|t| key(&t)).eq(run.iter().map(key))
            });
        if !ok {
            return Err(format!("the sequence {:?} yields {:?} with weight {:?}, not {:?}", run, storages, weight, items));
        }
        obs.step();
        if run.len() > 1 && !storages.is_empty() {
            obs.nontrivial();
            obs.outcome(&(run.len(), storages.len()));
        }
    }
    Ok(())
}

/// The runs, as numbers of transitions, of at most `bound` cost.
fn runs<I>(ts: &[Arrow<I>], initial: &I::Storage, terminal: &dyn Fn(&I::Storage) -> bool, word: &[u8], bound: i64) -> BTreeMap<Vec<usize>, i64>
where
    I: Instruction,
    I::Storage: Clone,
{
    let mut out = BTreeMap::new();
    let mut open = vec![(initial.clone(), 0, 0, vec![])];
    while let Some((s, at, cost, run)) = open.pop() {
        if at == word.len() && terminal(&s) {
            out.insert(run.clone(), cost);
        }
        for (i, t) in ts.iter().enumerate() {
            let cost = cost + t.weight.as_cost().unwrap();
            if cost <= bound && word[at..].starts_with(&t.word) {
                for s in t.instruction.apply(s.clone()) {
                    open.push((s, at + t.word.len(), cost, [&run[..], &[i]].concat()));
                }
            }
        }
    }
    out
}

fn recognises<A, I>(a: &A, ts: &[Arrow<I>], initial: &I::Storage, terminal: &dyn Fn(&I::Storage) -> bool, length: u32, bound: i64, obs: &mut Obs) -> Verdict
where
    A: Automaton<u8, Dyadic, I = I>,
    A::IInt: Ord,
    <A::IInt as Instruction>::Storage: Clone + Eq + Ord,
    A::TInt: Clone + Eq + Ord,
    I: Instruction + Clone + Debug + Eq,
    I::Storage: Clone + Eq + Debug,
{
    let mut counts = Vec::new();
    for w in words(&[0u8, 1], length) {
        let expected = runs(ts, initial, terminal, &w, bound);
        let fail = |e: String| format!("word {:?}: {}", w, e);
        let (items, end) = collect(|| recognise(a, w.clone()), expected.len(), BUDGET, 1, 300)?;
        let mut found = Vec::new();
        for Item(c, r) in items {
            let numbers: Option<Vec<usize>> = r.iter().map(|t| ts.iter().position(|u| key(u) == key(&t) && u.weight == t.weight)).collect();
            let numbers = numbers.ok_or_else(|| fail(format!("{:?} is no run", r)))?;
            let mut s = initial.clone();
            for t in r.iter() {
                s = t.instruction.apply(s).pop().ok_or_else(|| fail(format!("{:?} is no run", r)))?;
            }
            if s != c.storage || !c.word.is_empty() {
                return Err(fail(format!("{:?} ends with {:?}", r, c)));
            }
            found.push((Cost(c.weight.as_cost()), numbers));
        }
        let valid = |r: &Vec<usize>| {
            let (mut s, mut left, mut cost) = (initial.clone(), &w[..], 0);
            for i in r {
                s = ts[*i].instruction.apply(s).pop()?;
                left = left.strip_prefix(&ts[*i].word[..])?;
                cost += ts[*i].weight.as_cost()?;
            }
            (left.is_empty() && terminal(&s)).then_some(cost)
        };
        compare(&expected, bound, &found, end, true, &valid).map_err(fail)?;
        obs.step();
        if found.len() > 1 {
            obs.nontrivial();
            obs.note(|| fail(format!("{} runs", found.len())));
        }
        counts.push(found.len());
    }
    obs.outcome(&counts);
    Ok(())
}

fn arrows<I>(is: impl IntoIterator<Item = (Vec<u8>, I)>, cost: impl Fn(usize) -> i64) -> Vec<Arrow<I>> {
    is.into_iter().enumerate().map(|(i, (word, instruction))| Transition { word, weight: Dyadic::cost(cost(i)), instruction }).collect()
}

fn stack_menu(full: bool) -> Vec<(Vec<u8>, PushDownInstruction<u8>)> {
    let current: &[&[u8]] = if full { &[&[1], &[2], &[1, 2], &[2, 1], &[1, 1]] } else { &[&[1], &[1, 2]] };
    let new: &[&[u8]] = if full { &[&[], &[1], &[2], &[1, 2], &[2, 2]] } else { &[&[], &[1, 2]] };
    let read: &[&[u8]] = if full { &[&[], &[0], &[0, 1]] } else { &[&[], &[0]] };
    let mut v = Vec::new();
    for w in read {
        for c in current {
            for n in new {
                v.push((w.to_vec(), PushDownInstruction::Replace { current_val: c.to_vec(), new_val: n.to_vec() }));
            }
        }
    }
    v
}

fn state_menu(states: u8, full: bool) -> Vec<(Vec<u8>, FiniteStateInstruction<u8>)> {
    let read: &[&[u8]] = if full { &[&[], &[0], &[0, 1]] } else { &[&[], &[0]] };
    let mut v = Vec::new();
    for w in read {
        for p in 0..states {
            for q in 0..states {
                v.push((w.to_vec(), instruction(p, q)));
            }
        }
    }
    v
}

fn tree_menu(positions: usize, full: bool) -> Vec<(Vec<u8>, TreeStackInstruction<u8>)> {
    let mut v = Vec::new();
    for w in if full { vec![vec![], vec![0]] } else { vec![vec![0]] } {
        for i in instructions(positions, 2) {
            if full || !matches!(i, TreeStackInstruction::Push { n: 1, .. } | TreeStackInstruction::Up { n: 1, .. }) {
                v.push((w.clone(), i));
            }
        }
    }
    v
}

const STACKS: [&[u8]; 7] = [&[0], &[0, 1], &[0, 2], &[0, 1, 2], &[0, 2, 1], &[0, 2, 1, 1], &[3, 2, 1, 2, 1]];

fn pushdown(ts: Vec<(Vec<u8>, PushDownInstruction<u8>)>, costs: &dyn Fn(usize) -> i64, initial: &[u8], search: bool, obs: &mut Obs) -> Verdict {
    let ts = arrows(ts, costs);
    let initial = PushDown::from(initial.to_vec());
    let a: Pda = lists(&|t, i| Pda::from_transitions(t, i), &ts, &initial, true)?;
    if listed(a.list_transitions()) != listed(a.transitions()) {
        return Err("the lists of transitions differ".into());
    }
    let mut more = ts.clone();
    more.push(Transition { word: vec![1], weight: Dyadic::cost(1), instruction: PushDownInstruction::Replace { current_val: vec![1], new_val: vec![4] } });
    confirms(&a, &more, &initial, initial.is_bottom(), 3, obs)?;
    if search {
        recognises(&a, &ts, &initial, &|s| s.is_bottom(), 2, 5, obs)?;
    }
    obs.trace();
    obs.state(&(format!("{:?}", ts), &initial));
    Ok(())
}

fn finite_state(ts: Vec<(Vec<u8>, FiniteStateInstruction<u8>)>, costs: &dyn Fn(usize) -> i64, initial: u8, finals: u8, search: bool, obs: &mut Obs) -> Verdict {
    let ts = arrows(ts, costs);
    let list: Vec<u8> = (0..8).filter(|q| finals & (1 << q) != 0).collect();
    let none: Fsa = lists(&|t, i| Fsa::from_transitions(t, i), &ts, &initial, false)?;
    if let (Some(i), _) = collect(|| recognise(&none, vec![]), 1, 300, 0, 0).map(|(i, e)| (i.into_iter().next(), e))? {
        return Err(format!("without final states, {:?} is a run", i));
    }
    let a: Fsa = lists(&|t, i| Fsa::new(t, i, list.clone()), &ts, &initial, false)?;
    if listed(a.list_transitions()) != listed(a.transitions()) {
        return Err("the lists of transitions differ".into());
    }
    let is_final = |s: &u8| list.contains(s);
    let mut more = ts.clone();
    more.push(Transition { word: vec![1], weight: Dyadic::cost(1), instruction: instruction(0, 7) });
    confirms(&a, &more, &initial, is_final(&initial), 3, obs)?;
    if search {
        recognises(&a, &ts, &initial, &is_final, 2, 5, obs)?;
    }
    obs.trace();
    obs.state(&(format!("{:?}", ts), initial, finals));
    Ok(())
}

fn tree_stack(ts: Vec<(Vec<u8>, TreeStackInstruction<u8>)>, costs: &dyn Fn(usize) -> i64, initial: TreeStack<u8>, search: bool, obs: &mut Obs) -> Verdict {
    let ts = arrows(ts, costs);
    let a: Tsa = lists(&|t, i| <Tsa as Automaton<u8, Dyadic>>::from_transitions(t, i), &ts, &initial, false)?;
    let map = Tsa::transitions(&a);
    for (k, v) in &map {
        for t in v {
            let (TreeStackInstruction::Up { current_val, .. } | TreeStackInstruction::Push { current_val, .. } | TreeStackInstruction::Down { current_val, .. }) = &t.instruction;
            if current_val != k {
                return Err(format!("{:?} is listed for the symbol {}", t, k));
            }
        }
    }
    if listed(map.into_iter().flat_map(|(_, v)| v)) != listed(a.list_transitions()) || listed(a.list_transitions()) != listed(Automaton::transitions(&a)) || Tsa::initial(&a) != initial {
        return Err("the lists of transitions differ".into());
    }
    let mut more = ts.clone();
    more.push(Transition { word: vec![1], weight: Dyadic::cost(1), instruction: TreeStackInstruction::Push { n: 1, current_val: 0, new_val: 9 } });
    // nothing has been recognised yet
    confirms(&a, &more, &initial, false, 3, obs)?;
    if search {
        recognises(&a, &ts, &initial, &|s| s.is_at_bottom() && *s != initial, 2, 5, obs)?;
    }
    obs.trace();
    obs.state(&(format!("{:?}", ts), format!("{:?}", initial.to_tree())));
    Ok(())
}

/// A loop that is taken n times.
fn loops(t: Tier) -> Suite {
    let sizes: Vec<usize> = (1..=t.pick(80usize, 300)).chain([127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 4096]).collect();
    fn go<A, I>(a: A, i: I, initial: I::Storage, n: usize, obs: &mut Obs) -> Verdict
    where
        A: Automaton<u8, Dyadic, I = I>,
        I: Instruction + Clone + Debug,
        I::Storage: Clone + Eq + Debug,
    {
        let t = |c| Transition { word: vec![0], weight: Dyadic::cost(c), instruction: i.clone() };
        let run: Vec<Arrow<I>> = (0..n).map(|i| t(i as i64 % 3)).collect();
        let cost: i64 = (0..n as i64).map(|i| i % 3).sum();
        let items = a.check_run(Pushdown::from(&run[..]));
        let ok = items.len() == 1 && items.iter().all(|Item(c, r)| c.word.is_empty() && c.storage == initial && c.weight.as_cost() == Some(cost) && r.iter().count() == n);
        if !ok {
            return Err(format!("{:?}, taken {} times, yields {:?}", i, n, items));
        }
        obs.step();
        Ok(())
    }
    Suite::over(
        "loops",
        "a transition that changes nothing, taken n times with three weights in turn, for all n up to 80 (300) and some up to 4096; non-trivial: all",
        sizes,
        |&n, o| {
            fn one<I>(i: I) -> Vec<Arrow<I>> {
                vec![Transition { word: vec![0u8], weight: Dyadic::cost(1), instruction: i }]
            }
            go(Fsa::from_transitions(one(instruction(1, 1)), 1), instruction(1, 1), 1, n, o)?;
            let i = PushDownInstruction::Replace { current_val: vec![1, 2], new_val: vec![2, 1] };
            let p = PushDown::from(vec![0, 2, 1]);
            go(Pda::from_transitions(one(i.clone()), p.clone()), i, p, n, o)?;
            o.trace();
            o.nontrivial();
            o.state(&n);
            o.outcome(&n);
            Ok(())
        },
        |n| n.to_string(),
    )
}

/// Sets of transitions with different costs, × all of some initial storages.
fn sets<I: Clone + Debug + Send + Sync + 'static>(
    name: &'static str,
    about: String,
    menu: Vec<(Vec<u8>, I)>,
    k: usize,
    starts: usize,
    f: impl Fn(Vec<(Vec<u8>, I)>, usize, &mut Obs) -> Verdict + Send + Sync + 'static,
) -> Suite {
    let c = Choices::new(menu.len(), k);
    let (m, d, s) = (menu.clone(), c.clone(), starts as u64);
    Suite::new(
        name,
        format!("all sets of at most {} of {} {} × {} initial storages (and final states): lists, all sequences of up to three transitions, all runs of a cost up to five for words of up to two symbols; non-trivial: a sequence of two transitions or two runs of a word", k, menu.len(), about, starts),
        c.len() * s,
        move |i, o| f(c.get(i / s).into_iter().map(|r| menu[r].clone()).collect(), (i % s) as usize, o),
        move |i| format!("{:?}, start {}", d.get(i / s).into_iter().map(|r| m[r].clone()).collect::<Vec<_>>(), i % s),
    )
}

/// Lists of transitions in which some are equal, perhaps but for the weight.
fn lists_suite<I: Clone + Debug + Send + Sync + 'static>(
    name: &'static str,
    about: &str,
    menu: Vec<(Vec<u8>, I)>,
    n: u32,
    f: impl Fn(Vec<(Vec<u8>, I)>, &dyn Fn(usize) -> i64, &mut Obs) -> Verdict + Send + Sync + 'static,
) -> Suite {
    let options: Vec<((Vec<u8>, I), i64)> = menu.iter().flat_map(|m| [1, 2].map(|c| (m.clone(), c))).collect();
    let len = options.len() as u64;
    let total = len.pow(n);
    let radices = vec![len; n as usize];
    let (r2, o2) = (radices.clone(), options.clone());
    Suite::new(
        name,
        format!("all lists of {} of {} {} with two weights each, equal ones included: lists and sequences", n, menu.len(), about),
        total,
        move |i, o| {
            let d: Vec<usize> = digits(i, &radices);
            let costs: Vec<i64> = d.iter().map(|x| options[*x].1).collect();
            f(d.iter().map(|x| options[*x].0.clone()).collect(), &|i| costs[i], o)
        },
        move |i| format!("{:?}", digits(i, &r2).into_iter().map(|x| o2[x].clone()).collect::<Vec<_>>()),
    )
}

/// A chain of transitions, listed in some order, is a run as a whole.
fn chain<A, I>(make: &dyn Fn(Vec<Arrow<I>>, I::Storage) -> A, is: Vec<I>, initial: I::Storage, order: usize, obs: &mut Obs) -> Verdict
where
    A: Automaton<u8, Dyadic, I = I>,
    I: Instruction + Clone + Debug + PartialEq,
    I::Storage: Clone + Eq + Debug,
{
    let chain = arrows(is.into_iter().enumerate().map(|(i, x)| (vec![i as u8; i % 3], x)), |i| (i % 7) as i64);
    let mut ts = chain.clone();
    match order {
        0 => (),
        1 => ts.reverse(),
        _ => ts.sort_by_key(|t| t.weight),
    }
    let a = lists(make, &ts, &initial, false)?;
    let (mut s, mut weight) = (vec![initial], num_traits::One::one());
    for (i, t) in chain.iter().enumerate() {
        s = s.into_iter().flat_map(|s| t.instruction.apply(s)).collect();
        weight = weight * t.weight;
        let run = &chain[..=i];
        let items = a.check_run(Pushdown::from(run));
        let ok = items.len() == 1
            && s.len() == 1
            && items.iter().all(|Item(c, r)| c.word.is_empty() && c.storage == s[0] && c.weight == weight && r.iter().map(|t| key(&t)).eq(run.iter().map(key)));
        if !ok {
            return Err(format!("the first {} transitions yield {:?} with weight {:?}, not {:?}", i + 1, s, weight, items));
        }
        if i > 0 && !a.check_run(Pushdown::from(&chain[1..=i])).is_empty() {
            return Err(format!("the transitions 1 to {} are a run", i));
        }
        obs.step();
    }
    obs.trace();
    obs.nontrivial();
    Ok(())
}

fn large(t: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=t.pick(60usize, 250)).chain([127, 128, 129, 250]) {
        for order in 0..3 {
            for kind in 0..3 {
                cases.push((n, order, kind));
            }
        }
    }
    Suite::over(
        "large",
        "chains of n transitions, given first to last, last to first or by weight, for all n up to 60 (250) and some up to 250: lists, and all that a chain starts with as sequences; non-trivial: all",
        cases,
        |&(n, order, kind), o| {
            o.state(&(n, order, kind));
            o.outcome(&(n, order, kind));
            let m = n as u8;
            match kind {
                0 => chain(&|t, i| Fsa::from_transitions(t, i), (0..m).map(|i| instruction(i, i + 1)).collect(), 0, order, o),
                1 => chain(
                    &|t, i| Pda::from_transitions(t, i),
                    (0..m).map(|i| PushDownInstruction::Replace { current_val: vec![i], new_val: vec![i + 1; 1 + i as usize % 2] }).collect(),
                    PushDown::from(vec![255, 0]),
                    order,
                    o,
                ),
                _ => chain(
                    &|t, i| <Tsa as Automaton<u8, Dyadic>>::from_transitions(t, i),
                    (0..m).map(|i| TreeStackInstruction::Push { n: i as usize % 3, current_val: i, new_val: i + 1 }).collect(),
                    TreeStack::new(0),
                    order,
                    o,
                ),
            }
        },
        |c| format!("{:?} (n, order, kind)", c),
    )
}

fn suites(t: Tier) -> Vec<Suite> {
    let costs = |i: usize| 1 + i as i64;
    let positions = 2;
    let storages: Vec<_> = reachable(positions, 2, t.pick(2, 3), 1).into_iter().map(|m| m.0).collect();
    let few: Vec<_> = reachable(1, 2, 2, 1).into_iter().map(|m| m.0).collect();
    let n_few = few.len();
    let n = storages.len();
    vec![
        large(t),
        loops(t),
        sets("finite-state", "transitions between two states that read up to two symbols".into(), state_menu(2, true), t.pick(5, 6), 8, move |ts, s, o| {
            finite_state(ts, &costs, s as u8 % 2, s as u8 / 2, true, o)
        }),
        sets("finite-state-three", "transitions between three states that read up to one symbol".into(), state_menu(3, false), t.pick(4, 5), 24, move |ts, s, o| {
            finite_state(ts, &costs, s as u8 % 3, s as u8 / 3, true, o)
        }),
        lists_suite("finite-state-equal", "transitions", state_menu(2, false), 4, |ts, c, o| finite_state(ts, c, 0, 2, false, o)),
        sets("pushdown", "replacements of one or two symbols by up to two, that read up to two symbols".into(), stack_menu(true), t.pick(2, 3), STACKS.len(), move |ts, s, o| {
            pushdown(ts, &costs, STACKS[s], true, o)
        }),
        sets("pushdown-few", "replacements, that read up to one symbol".into(), stack_menu(false), 6, STACKS.len(), move |ts, s, o| {
            pushdown(ts, &costs, STACKS[s], true, o)
        }),
        lists_suite("pushdown-equal", "transitions", stack_menu(false), 4, |ts, c, o| pushdown(ts, c, &[0, 2, 1, 1], false, o)),
        sets("tree-stack", "instructions on two positions and symbols, that read up to one symbol".into(), tree_menu(positions, true), t.pick(2, 3), n, move |ts, s, o| {
            tree_stack(ts, &costs, build(&storages[s]), true, o)
        }),
        sets("tree-stack-few", "instructions on a position and two symbols, that read one symbol".into(), tree_menu(1, false), t.pick(3, 4), n_few, move |ts, s, o| {
            tree_stack(ts, &costs, build(&few[s]), true, o)
        }),
        lists_suite("tree-stack-equal", "transitions", tree_menu(1, false).into_iter().step_by(3).collect(), 4, |ts, c, o| tree_stack(ts, c, TreeStack::new(0), false, o)),
    ]
}

pub fn check() -> Check {
    Check { id: "C38", assumptions: vec!["instructions do what they should, which other properties are about"], build: suites }
}
