//! C28: approximations of automata.  C29: coarse-to-fine recognition.

use crate::c22_tree_stack::{self, Model};
use crate::c24_cfg::{self, costs, leftmost, words_of};
use crate::c25_mcfg::{self, derivation};
use crate::parse::{within_precision, collect, compare, Cost, Dyadic, End};
use mc_common::gram::{value, Der, Rule};
use mc_common::enumerate::{product, words, Choices};
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use num_traits::One;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::{ApproximationInstance, ApproximationStrategy};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction, PushState};
use rustomata::automata::tree_stack_automaton::{PosState, TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::coarse_to_fine_recogniser;
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::coarse_to_fine::CoarseToFineRecogniser;
use rustomata::recognisable::{Configuration, Instruction, Item, Recognisable, Transition};
use rustomata::util::push_down::Pushdown;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::rc::Rc;

const BUDGET: u64 = 500_000;

/// The relations on up to `n` nonterminals: each nonterminal to the least one of its class.
fn relations(n: u8) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    for i in 0..n {
        out = out
            .into_iter()
            .flat_map(|v| {
                let classes: BTreeSet<u8> = v.iter().copied().collect();
                classes.into_iter().chain([i]).map(move |c| [v.clone(), vec![c]].concat()).collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

/// Is `b` a coarsening of `a`?
fn coarser(a: &[u8], b: &[u8]) -> bool {
    (0..a.len()).all(|i| b[a[i] as usize] == b[i])
}

fn map_rules(rules: &[Rule], h: &[u8]) -> Vec<Rule> {
    rules
        .iter()
        .map(|r| Rule { head: h[r.head as usize], tail: r.tail.iter().map(|n| h[*n as usize]).collect(), comp: r.comp.clone() })
        .collect()
}

/// What an approximation has to fulfil, for the runs of a word.
struct Approximated<'a, S, A1, A2>
where
    S: ApproximationStrategy<u8, Dyadic>,
{
    fine: &'a A1,
    coarse: &'a A2,
    instance: &'a ApproximationInstance<S, u8, Dyadic>,
    /// steps of runs that are mapped, and runs they are mapped back to
    bounds: (usize, usize),
}

type TransitionTo<I> = Transition<I, u8, Dyadic>;

impl<'a, S> Approximated<'a, S, S::A1, S::A2>
where
    S: ApproximationStrategy<u8, Dyadic>,
    S::I1: Debug,
    S::I2: Debug,
    <S::I1 as Instruction>::Storage: Clone + Eq + Debug,
    <S::I2 as Instruction>::Storage: Clone + Eq + Debug,
{
    /// The transitions are the images, with the sums of the weights, and know what they stand for.
    fn transitions(&self) -> Result<BTreeMap<(Vec<u8>, S::I2), Dyadic>, String> {
        let mut sums: BTreeMap<(Vec<u8>, S::I2), (Dyadic, Dyadic, Vec<TransitionTo<S::I1>>)> = BTreeMap::new();
        for t in self.fine.transitions() {
            let key = (t.word.clone(), self.instance.approximate_instruction(&t.instruction));
            let e = sums.entry(key).or_insert((num_traits::Zero::zero(), num_traits::Zero::zero(), vec![]));
            e.0 += t.weight;
            e.1 = e.1.max(t.weight);
            e.2.push(t);
        }
        let mut seen = BTreeMap::new();
        for t in self.coarse.transitions() {
            let key = (t.word.clone(), t.instruction.clone());
            let Some((sum, max, ts)) = sums.get(&key) else {
                return Err(format!("the approximation has the transition {:?}, which stands for none", t));
            };
            if t.weight < *max || t.weight > *sum {
                return Err(format!("{:?} stands for transitions with weights up to {:?}, in sum {:?}", t, max, sum));
            }
            let back = self.instance.unapproximate_transition(&t);
            if back.len() != ts.len() || ts.iter().any(|x| !back.iter().any(|y| same(x, y))) {
                return Err(format!("{:?} stands for {:?}, not for {:?}", t, ts, back));
            }
            if seen.insert(key, t.weight).is_some() {
                return Err(format!("the approximation has the transition {:?} twice", t));
            }
        }
        if let Some(t) = sums.keys().find(|k| !seen.contains_key(k)) {
            return Err(format!("the transition {:?} is missing in the approximation", t));
        }
        if self.coarse.initial() != self.instance.approximate_storage(self.fine.initial()) {
            return Err(format!("the approximation starts with {:?}", self.coarse.initial()));
        }
        Ok(seen)
    }

    /// The image of a run of the automaton is a run of the approximation, step by step.
    fn run(
        &self,
        weights: &BTreeMap<(Vec<u8>, S::I2), Dyadic>,
        word: &[u8],
        run: &Pushdown<TransitionTo<S::I1>>,
        terminal: &dyn Fn(&<S::I2 as Instruction>::Storage) -> bool,
    ) -> Result<Dyadic, String> {
        let ts: Vec<TransitionTo<S::I1>> = run.clone().into();
        if ts.len() > self.bounds.0 {
            return Ok(num_traits::Zero::zero());
        }
        let mut fine = Configuration { word: word.to_vec(), storage: self.fine.initial(), weight: Dyadic::one() };
        let mut coarse = Configuration { word: word.to_vec(), storage: self.coarse.initial(), weight: Dyadic::one() };
        let mut image = Pushdown::new();
        for t in ts {
            let key = (t.word.clone(), self.instance.approximate_instruction(&t.instruction));
            let t2 = Transition { weight: weights[&key], word: key.0, instruction: key.1 };
            fine = t.apply(&fine).pop().ok_or("a run with a transition that does not apply")?;
            coarse = t2.apply(&coarse).pop().ok_or_else(|| format!("{:?} does not apply to the image {:?}", t2, coarse))?;
            let e = self.instance.approximate_storage(fine.storage.clone());
            if coarse.storage != e {
                return Err(format!("{:?} leads to {:?}, but {:?} leads to {:?}, which is mapped to {:?}", t2, coarse.storage, t, fine.storage, e));
            }
            image = image.push(t2);
        }
        if !terminal(&coarse.storage) {
            return Err(format!("the image of a run leads to {:?}", coarse.storage));
        }
        if coarse.weight < fine.weight {
            return Err(format!("the image of a run has weight {:?}, the run has {:?}", coarse.weight, fine.weight));
        }
        let mut expected = 1usize;
        for t in <Pushdown<_> as Into<Vec<TransitionTo<S::I2>>>>::into(image.clone()) {
            expected = expected.saturating_mul(self.instance.unapproximate_transition(&t).len());
        }
        if expected > self.bounds.1 {
            return Ok(coarse.weight);
        }
        let back = self.instance.unapproximate_run(image).into_vec();
        if back.len() != expected {
            return Err(format!("the image of a run stands for {} runs, not for {}", back.len(), expected));
        }
        let own: Vec<_> = run.clone().into();
        if !back.into_iter().any(|b| {
            let b: Vec<TransitionTo<S::I1>> = b.into();
            b.len() == own.len() && b.iter().zip(&own).all(|(x, y)| same(x, y))
        }) {
            return Err("the image of a run does not stand for the run".into());
        }
        Ok(coarse.weight)
    }
}

fn same<I: PartialEq>(a: &TransitionTo<I>, b: &TransitionTo<I>) -> bool {
    a == b && a.weight == b.weight
}

/// Small bounds, see `approximates_up_to`.
fn approximates<S, A1, A2>(
    fine: &A1,
    coarse: &A2,
    instance: &ApproximationInstance<S, u8, Dyadic>,
    words: &[Vec<u8>],
    runs: usize,
    terminal: &dyn Fn(&<S::I2 as Instruction>::Storage) -> bool,
    obs: &mut Obs,
) -> Verdict
where
    A1: Recognisable<u8, Dyadic, Parse = Item<<S::I1 as Instruction>::Storage, S::I1, u8, Dyadic>>,
    A2: Recognisable<u8, Dyadic, Parse = Item<<S::I2 as Instruction>::Storage, S::I2, u8, Dyadic>>,
    S: ApproximationStrategy<u8, Dyadic, A1 = A1, A2 = A2>,
    A1: Automaton<u8, Dyadic, I = S::I1>,
    A2: Automaton<u8, Dyadic, I = S::I2>,
    S::I1: Debug,
    S::I2: Debug,
    <S::I1 as Instruction>::Storage: Clone + Eq + Debug,
    <S::I2 as Instruction>::Storage: Clone + Eq + Debug,
{
    approximates_up_to((20, 300), 1_000, fine, coarse, instance, words, runs, terminal, obs)
}

/// Automaton 1, its approximation 2: everything that is to be said about the words.
#[allow(clippy::too_many_arguments)]
fn approximates_up_to<S, A1, A2>(
    bounds: (usize, usize),
    budget: u64,
    fine: &A1,
    coarse: &A2,
    instance: &ApproximationInstance<S, u8, Dyadic>,
    words: &[Vec<u8>],
    runs: usize,
    terminal: &dyn Fn(&<S::I2 as Instruction>::Storage) -> bool,
    obs: &mut Obs,
) -> Verdict
where
    A1: Recognisable<u8, Dyadic, Parse = Item<<S::I1 as Instruction>::Storage, S::I1, u8, Dyadic>>,
    A2: Recognisable<u8, Dyadic, Parse = Item<<S::I2 as Instruction>::Storage, S::I2, u8, Dyadic>>,
    S: ApproximationStrategy<u8, Dyadic, A1 = A1, A2 = A2>,
    A1: Automaton<u8, Dyadic, I = S::I1>,
    A2: Automaton<u8, Dyadic, I = S::I2>,
    S::I1: Debug,
    S::I2: Debug,
    <S::I1 as Instruction>::Storage: Clone + Eq + Debug,
    <S::I2 as Instruction>::Storage: Clone + Eq + Debug,
{
    let a = Approximated { fine, coarse, instance, bounds };
    let weights = a.transitions()?;
    obs.state(&(format!("{:?}", weights.keys().collect::<Vec<_>>())));
    let merged = weights.len() < fine.transitions().count();
    for w in words {
        let (found, _) = collect(|| fine.recognise(w.clone()), runs, budget, 0, 0)?;
        let mut best = None;
        for item in &found {
            let Some(weight) = within_precision(|| a.run(&weights, w, &item.1, terminal)) else {
                obs.count("weights too long", 1);
                continue;
            };
            let weight = weight.map_err(|e| format!("word {:?}: {}", w, e))?;
            best = best.max(Some(weight));
            obs.step();
        }
        // the approximation finds one with the weight of the image of a run, or a better one
        if let Some(best) = best {
            let bounded = weights.values().all(|w| *w <= Dyadic::one());
            let (first, end) = collect(|| coarse.recognise(w.clone()), 1, 2 * budget, 0, 0)?;
            if first.is_empty() && end == End::Done {
                return Err(format!("the approximation does not accept {:?}", w));
            }
            if bounded && !first.is_empty() && first[0].0.weight < best {
                return Err(format!("word {:?}: the best weight is {:?}, the one of an image is {:?}", w, first[0].0.weight, best));
            }
            obs.trace();
            if merged {
                obs.nontrivial();
            }
        }
        obs.outcome(&(found.len(), merged, w.len()));
    }
    Ok(())
}

fn kind_of(s: &PushState<u8, u8>) -> u8 {
    match s {
        PushState::Designated => 0,
        PushState::Initial => 1,
        PushState::Nt(_) => 2,
        PushState::T(_) => 3,
    }
}

fn dyadic(costs: &[i64]) -> Vec<Dyadic> {
    costs.iter().map(|c| Dyadic::cost(*c)).collect()
}

fn height<A>(p: &PushDown<A>) -> bool {
    p.is_bottom()
}

fn cfg_approximations(rules: &[Rule], kind: usize, n: u8, initial: &[u8], obs: &mut Obs) -> Verdict {
    let ws = dyadic(&costs(kind, rules.len()));
    let fine = PushDownAutomaton::from(c24_cfg::grammar(rules, &ws, initial));
    let words = words_of(3);
    for h in relations(n) {
        let f = |s: &PushState<u8, u8>| s.map(|n: &u8| h[*n as usize]);
        let (coarse, instance) = RlbElement::new(&f).approximate_automaton(&fine);
        approximates(&fine, &coarse, &instance, &words, 10, &height, obs).map_err(|e| format!("relation {:?}: {}", h, e))?;
    }
    let (coarse, instance) = RlbElement::new(&kind_of).approximate_automaton(&fine);
    approximates(&fine, &coarse, &instance, &words, 10, &height, obs).map_err(|e| format!("all nonterminals and all terminals: {}", e))
}

/// Relations on the nonterminals of the families: the others are one, or two by turns, or all are one.
fn merge(way: usize, n: u8) -> u8 {
    match (way, n) {
        (2, _) | (_, 0) => 0,
        (0, _) => 1,
        (_, n) => 1 + n % 2,
    }
}

fn family_costs(n: usize) -> Vec<i64> {
    (0..n as i64).map(|i| 8 + i % 5).collect()
}

fn large(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(24usize, 40)).chain([63, 64, 65, 127, 128, 129, 200]) {
        for kind in 0..11 {
            if kind < 5 || n <= 65 {
                cases.push((n, kind));
            }
        }
    }
    Suite::over(
        "large",
        "the families of C24 and C25 (long words, n rules for one word, a chain of n nonterminals, fan-out n, a rule with n symbols or nonterminals), for all n up \
         to 24 (40) and some up to 200, and n² rules that become the same one, with the nonterminals merged to one or two classes, with and without the initial one; runs of up to 1000 steps that \
         stand for up to 50000 runs",
        cases,
        |&(n, kind), o| {
            let (rules, word, wrong, _) = match kind {
                0..=4 => c24_cfg::family(n, kind),
                10 => {
                    let rule = |head: u8, tail: Vec<u8>, c: mc_common::gram::S| Rule { head, tail, comp: vec![vec![c]] };
                    let var = mc_common::gram::S::V(0, 0);
                    let m = n as u8;
                    let mut rs = vec![rule(0, vec![1], var.clone()), rule(101, vec![], mc_common::gram::S::T(0))];
                    rs.extend((1..=m).flat_map(|i| (101..=100 + m).map(move |j| (i, j))).map(|(i, j)| rule(i, vec![j], var.clone())));
                    (rs, vec![0], vec![1], 1)
                }
                _ => c25_mcfg::family(n, kind - 5),
            };
            let ws = dyadic(&family_costs(rules.len()));
            let words = [word, wrong];
            let bounds = (1000, 50_000);
            let budget = 5_000;
            for way in 0..3 {
                let at = |e| format!("relation {}: {}", way, e);
                if kind < 5 || kind == 10 {
                    let fine = PushDownAutomaton::from(c24_cfg::grammar(&rules, &ws, &[0]));
                    let f = |s: &PushState<u8, u8>| s.map(|n: &u8| merge(way, *n));
                    let (coarse, instance) = RlbElement::new(&f).approximate_automaton(&fine);
                    approximates_up_to(bounds, budget, &fine, &coarse, &instance, &words, 3, &height, o).map_err(at)?;
                } else {
                    let fine = TreeStackAutomaton::from(c25_mcfg::grammar(&rules, &ws, &[0]));
                    let (middle, instance) = TTSElement::new().approximate_automaton(&fine);
                    approximates_up_to(bounds, budget, &fine, &middle, &instance, &words, 3, &height, o).map_err(at)?;
                    let f = |s: &Pos| s.map(|r| merge(way, r.head));
                    let (coarse, instance) = RlbElement::new(&f).approximate_automaton(&middle);
                    approximates_up_to(bounds, budget, &middle, &coarse, &instance, &words, 3, &height, o).map_err(at)?;
                }
            }
            Ok(())
        },
        |c| format!("{:?} (n, kind)", c),
    )
    .limit(120)
}

/// As `large`, for recognition.
fn large_hierarchies(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(24usize, 40)).chain([63, 64, 65, 127, 128, 129]) {
        for kind in 0..10 {
            if (kind < 5 && (kind != 2 || n <= 40)) || n <= 25 {
                cases.push((n, kind));
            }
        }
    }
    Suite::over(
        "large",
        "the families of C24 and C25 (long words, n rules for one word, a chain of n nonterminals, fan-out n, a rule with n symbols or nonterminals), for all n up \
         to 24 (40) and some up to 129, with the nonterminals merged to one or two classes, with and without the initial one; through one and two levels, and \
         through pushdown automata",
        cases,
        |&(n, kind), o| {
            let (rules, word, wrong, _) = if kind < 5 { c24_cfg::family(n, kind) } else { c25_mcfg::family(n, kind - 5) };
            let ws = dyadic(&family_costs(rules.len()));
            const MANY: u64 = 30_000;
            for w in [word, wrong] {
                for way in 0..3 {
                    let at = |e| format!("relation {}: {}", way, e);
                    let h: Vec<u8> = (0..=255).map(|n| merge(way, n)).collect();
                    // the search at the coarser level has to end
                    if !(if kind < 5 { c24_cfg::finite(&map_rules(&rules, &h)) } else { finite_by_head(&rules, &h) }) {
                        o.count("relations left out", 1);
                        continue;
                    }
                    if kind < 5 {
                        let aut = || PushDownAutomaton::from(c24_cfg::grammar(&rules, &ws, &[0]));
                        let f = |s: &PushState<u8, u8>| s.map(|n: &u8| merge(way, *n));
                        let g = |s: &PushState<u8, u8>| s.map(|_: &u8| 0u8);
                        let one = coarse_to_fine_recogniser!(aut(); RlbElement::new(&f));
                        let two = coarse_to_fine_recogniser!(aut(); RlbElement::new(&f), RlbElement::new(&g));
                        let (b1, b2) = (bounded(&one.sublevel), bounded(&two.sublevel.sublevel));
                        if manageable(&*one.sublevel, &one.approximation_instance, &w)? {
                            like_direct_within(MANY, &aut(), &one, b1, &w, o).map_err(at)?;
                        } else {
                            o.count("left out: too many candidates", 1);
                        }
                        if !c24_cfg::finite(&map_rules(&rules, &[0; 256])) {
                            o.count("relations left out", 1);
                            continue;
                        }
                        if manageable(&*two.sublevel.sublevel, &two.sublevel.approximation_instance, &w)? && manageable(&*two.sublevel, &two.approximation_instance, &w)? {
                            like_direct_within(MANY, &aut(), &two, b1 && b2, &w, o).map_err(at)?;
                        } else {
                            o.count("left out: too many candidates", 1);
                        }
                    } else {
                        let aut = || TreeStackAutomaton::from(c25_mcfg::grammar(&rules, &ws, &[0]));
                        let f = |s: &Pos| s.map(|r| merge(way, r.head));
                        let one = coarse_to_fine_recogniser!(aut(); TTSElement::new());
                        let two = coarse_to_fine_recogniser!(aut(); TTSElement::new(), RlbElement::new(&f));
                        let (b1, b2) = (bounded(&one.sublevel), bounded(&two.sublevel.sublevel));
                        if manageable(&*one.sublevel, &one.approximation_instance, &w)? {
                            like_direct_within(MANY, &aut(), &one, b1, &w, o).map_err(at)?;
                        } else {
                            o.count("left out: too many candidates", 1);
                        }
                        if manageable(&*two.sublevel.sublevel, &two.sublevel.approximation_instance, &w)? && manageable(&*two.sublevel, &two.approximation_instance, &w)? {
                            like_direct_within(MANY, &aut(), &two, b1 && b2, &w, o).map_err(at)?;
                        } else {
                            o.count("left out: too many candidates", 1);
                        }
                    }
                }
            }
            o.state(&(n, kind));
            Ok(())
        },
        |c| format!("{:?} (n, kind)", c),
    )
    .limit(120)
}

type Pos = PosState<c25_mcfg::PRule<Dyadic>>;

fn by_head(h: &[u8]) -> impl Fn(&Pos) -> PosState<u8> + '_ {
    move |s| s.map(|r| h[r.head as usize])
}

fn mcfg_approximations(rules: &[Rule], kind: usize, n: u8, obs: &mut Obs) -> Verdict {
    let ws = dyadic(&costs(kind, rules.len()));
    let fine = TreeStackAutomaton::from(c25_mcfg::grammar(rules, &ws, &[0]));
    let words = words_of(3);
    let (middle, instance) = TTSElement::new().approximate_automaton(&fine);
    approximates(&fine, &middle, &instance, &words, 10, &height, obs).map_err(|e| format!("as a pushdown automaton: {}", e))?;
    for h in relations(n) {
        let f = by_head(&h);
        let (coarse, instance) = RlbElement::new(&f).approximate_automaton(&middle);
        approximates(&middle, &coarse, &instance, &words, 10, &height, obs).map_err(|e| format!("heads by {:?}: {}", h, e))?;
    }
    // forget the rule, and the position in it
    let f = |s: &Pos| matches!(s, PosState::Position(..));
    let (coarse, instance) = RlbElement::new(&f).approximate_automaton(&middle);
    approximates(&middle, &coarse, &instance, &words, 10, &height, obs).map_err(|e| format!("without rules: {}", e))
}

/// Whatever an instruction does to a storage, its image does to the image of the storage.
fn step<S>(strategy: &S, instruction: &S::I1, before: &<S::I1 as Instruction>::Storage, obs: &mut Obs) -> Verdict
where
    S: ApproximationStrategy<u8, Dyadic>,
    S::I1: Debug,
    S::I2: Debug,
    <S::I1 as Instruction>::Storage: Clone + Debug,
    <S::I2 as Instruction>::Storage: PartialEq + Debug,
{
    let image = strategy.approximate_instruction(instruction);
    let after = image.apply(strategy.approximate_storage(before.clone()));
    for s in instruction.apply(before.clone()) {
        let e = strategy.approximate_storage(s.clone());
        obs.nontrivial();
        if !after.contains(&e) {
            return Err(format!(
                "{:?} leads from {:?} to {:?}, but its image {:?} leads from the image to {:?}",
                instruction, before, s, image, after
            ));
        }
    }
    obs.step();
    obs.outcome(&after.len());
    Ok(())
}

fn path(m: &TreeStack<u8>) -> Vec<u8> {
    let (tree, pointer) = m.to_tree();
    let labels: BTreeMap<Vec<usize>, u8> = tree.into_iter().collect();
    (0..=pointer.len()).map(|l| labels[&pointer[..l]]).collect()
}

/// All the instructions over `values` symbols and `positions` positions.
fn tree_stack_steps(tier: Tier) -> Suite {
    let states: Vec<Model> = c22_tree_stack::reachable(2, 3, tier.pick(4, 5), 1).into_iter().map(|(m, _)| m).collect();
    Suite::over(
        "tree-stack-steps",
        "all tree stacks reachable with up to 4 (5) operations over 2 positions and 3 values × all instructions over 3 positions and 3 values, as \
         pushdowns: the image of a stack is the path to the pointer, the image of an instruction does to it what the instruction does to the stack; \
         non-trivial: the instruction applies",
        states,
        |m, o| {
            let t = c22_tree_stack::build(m);
            let tts = TTSElement::<u8>::new();
            let image = ApproximationStrategy::<u8, Dyadic>::approximate_storage(&tts, t.clone());
            if image != PushDown::from(path(&t)) {
                return Err(format!("the image is {:?}", image));
            }
            for i in c22_tree_stack::instructions(3, 3) {
                step::<TTSElement<u8>>(&tts, &i, &t, o)?;
            }
            o.trace();
            o.state(m);
            Ok(())
        },
        |m| format!("{:?}", m),
    )
}

/// The same for relabellings.
fn push_down_steps(tier: Tier) -> Suite {
    let stacks: Vec<Vec<u8>> = words(&[0, 1, 2], tier.pick(4, 5)).into_iter().filter(|w| !w.is_empty()).collect();
    Suite::over(
        "pushdown-steps",
        "all pushdowns of up to 4 (5) of three symbols × all instructions that replace one or two symbols by up to two × all functions from the three \
         symbols to three: the image of an instruction does to the image of a pushdown what the instruction does to the pushdown; non-trivial: it applies",
        stacks,
        |s, o| {
            let p = PushDown::from(s.clone());
            for f in product(&[vec![0u8, 1, 2], vec![0, 1, 2], vec![0, 1, 2]]) {
                let f = |a: &u8| f[*a as usize];
                let strategy = RlbElement::new(&f);
                let image = ApproximationStrategy::<u8, Dyadic>::approximate_storage(&strategy, p.clone());
                if image != PushDown::from(s.iter().map(f).collect::<Vec<_>>()) {
                    return Err(format!("the image is {:?}", image));
                }
                for current_val in words(&[0, 1, 2], 2).into_iter().filter(|w| !w.is_empty()) {
                    for new_val in words(&[0, 1, 2], 2) {
                        let i = PushDownInstruction::Replace { current_val: current_val.clone(), new_val };
                        step::<RlbElement<u8, u8>>(&strategy, &i, &p, o)?;
                    }
                }
            }
            o.trace();
            o.state(s);
            Ok(())
        },
        |s| format!("{:?}", s),
    )
}

type TreeStackTransition = (TreeStackInstruction<u8>, Vec<u8>);

fn tree_stack_menu(positions: usize) -> Vec<TreeStackTransition> {
    c22_tree_stack::instructions(positions, 2).into_iter().flat_map(|i| [(i.clone(), vec![]), (i, vec![0u8])]).collect()
}

fn tree_stack_automaton(chosen: Vec<TreeStackTransition>, kind: usize) -> TreeStackAutomaton<u8, u8, Dyadic> {
    let ws = dyadic(&costs(kind, chosen.len()));
    let ts = chosen.into_iter().zip(ws).map(|((instruction, word), weight)| Transition { word, weight, instruction });
    TreeStackAutomaton::from_transitions(ts, TreeStack::new(0))
}

/// Tree-stack automata that do not come from a grammar.
fn tree_stack_automata(name: &'static str, positions: usize, k: usize, length: u32, kind: usize) -> Suite {
    let menu = tree_stack_menu(positions);
    let c = Choices::new(menu.len(), k);
    let (m, d) = (menu.clone(), c.clone());
    Suite::new(
        name,
        format!(
            "all tree-stack automata with at most {} of {} transitions: over {} positions and two symbols, with all instructions, that read nothing or a; as \
             pushdown automata and those relabelled to one symbol; words of up to {} symbols; up to six runs, step by step; non-trivial: transitions coincide and a word \
             is accepted",
            k,
            menu.len(),
            positions,
            length
        ),
        c.len(),
        move |i, o| {
            let fine = tree_stack_automaton(c.get(i).into_iter().map(|r| menu[r].clone()).collect(), kind);
            let words: Vec<Vec<u8>> = words(&[0u8], length);
            let (middle, instance) = TTSElement::new().approximate_automaton(&fine);
            approximates(&fine, &middle, &instance, &words, 6, &height, o).map_err(|e| format!("as a pushdown automaton: {}", e))?;
            let f = |_: &u8| 0u8;
            let (coarse, instance) = RlbElement::new(&f).approximate_automaton(&middle);
            approximates(&middle, &coarse, &instance, &words, 6, &height, o).map_err(|e| format!("with one symbol: {}", e))
        },
        move |i| format!("{:?}", d.get(i).into_iter().map(|r| m[r].clone()).collect::<Vec<_>>()),
    )
}

pub fn c28() -> Check {
    Check {
        id: "C28",
        assumptions: vec![
            "weights are dyadic numbers; that the best run of an approximation is at least as good as the image is compared \
             if no transition of the approximation weighs more than 1, where best-first search is defined"
                .into(),
        ],
        build: |t: Tier| {
            vec![
                large(t),
                tree_stack_steps(t),
                push_down_steps(t),
                tree_stack_automata("tree-stacks-one", 1, t.pick(3, 4), 2, 1),
                tree_stack_automata("tree-stacks-two", 2, t.pick(2, 3), 2, 2),
                c25_mcfg::sets(
                    "cfg-two",
                    "all context-free grammars over two nonterminals with rules of at most two symbols × both relations on the nonterminals and the one that \
                     forgets nonterminals and terminals; words of up to three symbols and two with an unknown one; up to ten runs of each, step by step; \
                     non-trivial: transitions coincide and a word is accepted",
                    c24_cfg::menu(2, 2, 2, 2),
                    t.pick(3, 4),
                    vec![1],
                    |r, k, o| cfg_approximations(r, k, 2, &[0], o),
                ),
                c25_mcfg::sets(
                    "cfg-three",
                    "all context-free grammars over three nonterminals with rules of at most one nonterminal, one terminal and two symbols × all five relations on the \
                     nonterminals and the one that forgets all; all three nonterminals are initial; otherwise the same",
                    c24_cfg::menu(3, 1, 2, 1),
                    t.pick(2, 3),
                    vec![1],
                    |r, k, o| cfg_approximations(r, k, 3, &[0, 1, 2], o),
                ),
                c25_mcfg::sets(
                    "mcfg",
                    "all monotone grammars over nonterminals of fan-out 1 and 2 with rules of at most one nonterminal, one terminal and four symbols: the tree-stack \
                     automaton as a pushdown automaton, and that relabelled by head (both relations) and without any rule; words and runs as above",
                    c25_mcfg::menu(&[1, 2], 1, 4, 1, 1),
                    t.pick(3, 4),
                    vec![1],
                    |r, k, o| mcfg_approximations(r, k, 2, o),
                ),
                c25_mcfg::sets(
                    "mcfg-same",
                    "all monotone grammars over nonterminals of fan-out 1, 2 and 2 with rules of at most one nonterminal, one terminal and three symbols: \
                     the same with all five relations on the heads",
                    c25_mcfg::menu(&[1, 2, 2], 1, 3, 1, 1),
                    t.pick(2, 3),
                    vec![2],
                    |r, k, o| mcfg_approximations(r, k, 3, o),
                ),
            ]
        },
    }
}

// ---------------------------------------------------------------------------------------------
// C29

/// The parses by coarse-to-fine recognition against all there are.
#[allow(clippy::too_many_arguments)]
fn fine<R, S, I>(
    recogniser: &R,
    word: &[u8],
    expected: &BTreeMap<S, i64>,
    bound: i64,
    ordered: bool,
    read: &dyn Fn(&R::Parse) -> Result<(Dyadic, S), String>,
    valid: &dyn Fn(&S) -> Option<i64>,
    obs: &mut Obs,
) -> Verdict
where
    R: Recognisable<u8, Dyadic, Parse = I>,
    S: Ord + Clone + Debug,
{
    let (found, end) = collect(|| recogniser.recognise(word.to_vec()), usize::MAX, BUDGET, 0, 0)?;
    if end != End::Done {
        return Err(format!("word {:?}: the search does not end", word));
    }
    let mut runs = Vec::new();
    for item in &found {
        let (w, s) = read(item).map_err(|e| format!("word {:?}: {}", word, e))?;
        runs.push((Cost(Some(w.as_cost().ok_or_else(|| format!("word {:?}: weight {:?}", word, w))?)), s));
    }
    if !ordered {
        runs.sort_by(|a, b| b.0.cmp(&a.0));
    }
    compare(expected, bound, &runs, end, true, valid).map_err(|e| format!("word {:?}: {}", word, e))?;
    obs.step();
    obs.trace();
    obs.outcome(&(runs.len(), word.len()));
    if runs.len() > 1 {
        obs.nontrivial();
        obs.note(|| format!("word {:?} has {} parses", word, runs.len()));
    }
    Ok(())
}

/// Do the parses of a coarser level stand for no more than a manageable number of candidates?
fn manageable<S, R>(sublevel: &R, instance: &ApproximationInstance<S, u8, Dyadic>, word: &[u8]) -> Result<bool, String>
where
    S: ApproximationStrategy<u8, Dyadic>,
    R: Recognisable<u8, Dyadic, Parse = Item<<S::I2 as Instruction>::Storage, S::I2, u8, Dyadic>>,
{
    let mut sum = 0;
    let (_, end) = collect(
        || {
            sublevel.recognise(word.to_vec()).take_while(|Item(_, run)| {
                let ts: Vec<_> = run.clone().into();
                let mut n = 1u64;
                for t in &ts {
                    n = n.saturating_mul(instance.unapproximate_transition(t).len() as u64);
                }
                sum += n;
                sum < 2000
            })
        },
        usize::MAX,
        BUDGET,
        0,
        0,
    )?;
    if end != End::Done {
        return Err(format!("word {:?}: the search at a coarser level does not end", word));
    }
    Ok(sum < 2000)
}

/// Does no transition of a pushdown automaton weigh more than 1?
fn bounded<A: Clone + Hash + Ord>(a: &PushDownAutomaton<A, u8, Dyadic>) -> bool {
    a.list_transitions().all(|t| t.weight <= Dyadic::one())
}

fn cfg_hierarchies(rules: &[Rule], costs: &[i64], n: u8, initial: &[u8], bound: i64, words: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    let ws = dyadic(costs);
    let g = c24_cfg::grammar(rules, &ws, initial);
    let exp = c24_cfg::expected(rules, costs, initial, bound);
    let none = c24_cfg::Expected::new();
    let aut = || PushDownAutomaton::from(g.clone());
    let rs = relations(n);
    let mut any = false;
    for h1 in &rs {
        // everything has to end, also the search of the coarsest one
        if !c24_cfg::finite(&map_rules(rules, h1)) {
            continue;
        }
        any = true;
        let f1 = |s: &PushState<u8, u8>| s.map(|n: &u8| h1[*n as usize]);
        let one = coarse_to_fine_recogniser!(aut(); RlbElement::new(&f1));
        let ordered1 = bounded(&one.sublevel);
        let check = |w: &Vec<u8>, r: &dyn Recognisable<u8, Dyadic, Parse = _>, ordered: bool, obs: &mut Obs| {
            let read = |i: &_| leftmost(i, rules, w).map(|l| (i.0.weight, l));
            let r = Dyn(r);
            fine(&r, w, exp.get(w).unwrap_or(&none), bound, ordered, &read, &|(s, seq)| {
                if initial.contains(s) && c24_cfg::derives(rules, *s, seq, w) { Some(seq.iter().map(|r| costs[*r]).sum()) } else { None }
            }, obs)
        };
        for w in words {
            if !manageable(&*one.sublevel, &one.approximation_instance, w)? {
                obs.count("words left out", 1);
                continue;
            }
            check(w, &one, ordered1, obs).map_err(|e| format!("relation {:?}: {}", h1, e))?;
        }
        for h2 in rs.iter().filter(|h2| coarser(h1, h2) && c24_cfg::finite(&map_rules(rules, h2))) {
            let f2 = |s: &PushState<u8, u8>| s.map(|n: &u8| h2[*n as usize]);
            let two = coarse_to_fine_recogniser!(aut(); RlbElement::new(&f1), RlbElement::new(&f2));
            let ordered2 = ordered1 && bounded(&two.sublevel.sublevel);
            for w in words {
                if !manageable(&*two.sublevel.sublevel, &two.sublevel.approximation_instance, w)? || !manageable(&*two.sublevel, &two.approximation_instance, w)? {
                    obs.count("words left out", 1);
                    continue;
                }
                check(w, &two, ordered2, obs).map_err(|e| format!("relations {:?}, {:?}: {}", h1, h2, e))?;
            }
        }
    }
    if any {
        obs.state(&(rules, costs));
    }
    Ok(())
}

/// A recogniser behind a pointer.
struct Dyn<'a, P>(&'a dyn Recognisable<u8, Dyadic, Parse = P>);

impl<'x, P> Recognisable<u8, Dyadic> for Dyn<'x, P> {
    type Parse = P;
    fn recognise<'a>(&'a self, word: Vec<u8>) -> Box<dyn Iterator<Item = P> + 'a> {
        self.0.recognise(word)
    }
    fn recognise_beam_search<'a>(&'a self, beam: usize, word: Vec<u8>) -> Box<dyn Iterator<Item = P> + 'a> {
        self.0.recognise_beam_search(beam, word)
    }
}

/// Does coarse search end although rules are only known by the images of their heads?
fn finite_by_head(rules: &[Rule], h: &[u8]) -> bool {
    c25_mcfg::finite(&map_rules(rules, h))
}

fn mcfg_hierarchies(rules: &[Rule], kind: usize, n: u8, bound: i64, obs: &mut Obs) -> Verdict {
    let costs = costs(kind, rules.len());
    let ws = dyadic(&costs);
    let g = c25_mcfg::grammar(rules, &ws, &[0]);
    let prules = g.rules.clone();
    let exp = c25_mcfg::expected(rules, &costs, &[0], bound);
    let none = c25_mcfg::Expected::new();
    let aut = || TreeStackAutomaton::from(g.clone());
    if !c25_mcfg::finite(rules) {
        return Ok(());
    }
    let check = |w: &Vec<u8>, r: &dyn Recognisable<u8, Dyadic, Parse = c25_mcfg::Run<Dyadic>>, ordered: bool, obs: &mut Obs| {
        let read = |i: &c25_mcfg::Run<Dyadic>| derivation(i, &prules, w).map(|d| (i.0.weight, d));
        let r = Dyn(r);
        fine(&r, w, exp.get(w).unwrap_or(&none), bound, ordered, &read, &|d: &Der| {
            if rules[d.rule].head == 0 && value(rules, d)[0] == *w { Some(c25_mcfg::cost(d, &costs)) } else { None }
        }, obs)
    };
    let one = coarse_to_fine_recogniser!(aut(); TTSElement::new());
    let ordered1 = bounded(&one.sublevel);
    for w in words_of(3) {
        check(&w, &one, ordered1, obs).map_err(|e| format!("through a pushdown automaton: {}", e))?;
    }
    let rs = relations(n);
    for h1 in rs.iter().filter(|h| finite_by_head(rules, h)) {
        let f1 = by_head(h1);
        let two = coarse_to_fine_recogniser!(aut(); TTSElement::new(), RlbElement::new(&f1));
        let ordered2 = ordered1 && bounded(&two.sublevel.sublevel);
        for w in words_of(3) {
            if !manageable(&*two.sublevel.sublevel, &two.sublevel.approximation_instance, &w)? || !manageable(&*two.sublevel, &two.approximation_instance, &w)? {
                obs.count("words left out", 1);
                continue;
            }
            check(&w, &two, ordered2, obs).map_err(|e| format!("by heads with {:?}: {}", h1, e))?;
        }
        for h2 in rs.iter().filter(|h2| *h2 != h1 && coarser(h1, h2) && finite_by_head(rules, h2)) {
            let f2 = |s: &PosState<u8>| s.map(|n: &u8| h2[*n as usize]);
            let three = coarse_to_fine_recogniser!(aut(); TTSElement::new(), RlbElement::new(&f1), RlbElement::new(&f2));
            let ordered3 = ordered2 && bounded(&three.sublevel.sublevel.sublevel);
            for w in words_of(3) {
                let (l2, l1) = (&three.sublevel.sublevel, &three.sublevel);
                if !manageable(&*l2.sublevel, &l2.approximation_instance, &w)?
                    || !manageable(&**l2, &l1.approximation_instance, &w)?
                    || !manageable(&**l1, &three.approximation_instance, &w)?
                {
                    obs.count("words left out", 1);
                    continue;
                }
                check(&w, &three, ordered3, obs).map_err(|e| format!("by heads with {:?}, {:?}: {}", h1, h2, e))?;
            }
        }
    }
    obs.state(&(rules, kind));
    Ok(())
}

/// Parses with all weights: what is best approximately need not be what is best.
fn weighted_choices(name: &'static str, choices: u8, max: u64) -> Suite {
    let n = 2 * choices as u64;
    let total = max.pow(n as u32);
    let get = move |i: u64| -> Vec<i64> { mc_common::enumerate::digits(i, &vec![max; n as usize]).into_iter().map(|c| c as i64 + 1).collect() };
    Suite::new(
        name,
        format!(
            "S → A_i, A_i → a for i ≤ {}, with all costs from 1 to {} × all hierarchies of one or two relations on the nonterminals: the order of the approximation \
             differs from that of the parses; non-trivial: two parses",
            choices, max
        ),
        total,
        move |i, o| {
            let rule = |head: u8, tail: Vec<u8>, c: mc_common::gram::S| Rule { head, tail, comp: vec![vec![c]] };
            let mut rs: Vec<Rule> = (1..=choices).map(|i| rule(0, vec![i], mc_common::gram::S::V(0, 0))).collect();
            rs.extend((1..=choices).map(|i| rule(i, vec![], mc_common::gram::S::T(0))));
            cfg_hierarchies(&rs, &get(i), choices + 1, &[0], 1000, &[vec![0], vec![1]], o)
        },
        move |i| format!("costs {:?}", get(i)),
    )
}

/// Coarse-to-fine recognition of an automaton against direct recognition.
fn like_direct<A, R, I>(direct: &A, coarse: &R, ordered: bool, word: &[u8], obs: &mut Obs) -> Verdict
where
    A: Recognisable<u8, Dyadic, Parse = Item<I::Storage, I, u8, Dyadic>>,
    R: Recognisable<u8, Dyadic, Parse = Item<I::Storage, I, u8, Dyadic>>,
    I: Instruction + Clone + Ord + Debug,
    I::Storage: Clone + PartialEq + Debug,
{
    like_direct_within(600, direct, coarse, ordered, word, obs)
}

fn like_direct_within<A, R, I>(many: u64, direct: &A, coarse: &R, ordered: bool, word: &[u8], obs: &mut Obs) -> Verdict
where
    A: Recognisable<u8, Dyadic, Parse = Item<I::Storage, I, u8, Dyadic>>,
    R: Recognisable<u8, Dyadic, Parse = Item<I::Storage, I, u8, Dyadic>>,
    I: Instruction + Clone + Ord + Debug,
    I::Storage: Clone + PartialEq + Debug,
{
    let (expected, end) = collect(|| direct.recognise(word.to_vec()), 200, many, 1, 0)?;
    if end != End::Done {
        obs.count("words left out", 1);
        return Ok(());
    }
    let (found, end) = collect(|| coarse.recognise(word.to_vec()), 200, 5 * many, 1, 0)?;
    if end == End::Budget {
        // the approximation has too many parses: only some of them are compared
        obs.count("words compared in part", 1);
    }
    let key = |Item(c, run): &Item<I::Storage, I, u8, Dyadic>| {
        let ts: Vec<TransitionTo<I>> = run.clone().into();
        (ts.into_iter().map(|t| (t.word, t.instruction)).collect::<Vec<_>>(), c.weight, c.storage.clone())
    };
    let e: Vec<_> = expected.iter().map(key).collect();
    let f: Vec<_> = found.iter().map(key).collect();
    for (i, x) in f.iter().enumerate() {
        if !e.contains(x) {
            return Err(format!("word {:?}: {:?} is no parse", word, x));
        }
        if f[..i].contains(x) {
            return Err(format!("word {:?}: {:?} is found twice", word, x));
        }
        if ordered && i > 0 && f[i - 1].1 < x.1 {
            return Err(format!("word {:?}: {:?} comes after {:?}", word, x, f[i - 1]));
        }
    }
    if end != End::Budget && f.len() != e.len() {
        return Err(format!("word {:?}: {} parses instead of {}: {:?} instead of {:?}", word, f.len(), e.len(), f, e));
    }
    obs.step();
    if !e.is_empty() {
        obs.trace();
    }
    if f.len() > 1 {
        obs.nontrivial();
    }
    obs.outcome(&(f.len(), word.len()));
    Ok(())
}

fn tree_stack_hierarchies(name: &'static str, positions: usize, k: usize, length: u32, kind: usize) -> Suite {
    let menu = tree_stack_menu(positions);
    let c = Choices::new(menu.len(), k);
    let (m, d) = (menu.clone(), c.clone());
    Suite::new(
        name,
        format!(
            "all tree-stack automata with at most {} of {} transitions: over {} positions and two symbols, with all instructions, that read nothing or a: through \
             pushdown automata and through those and ones with one symbol; words of up to {} symbols; non-trivial: two runs",
            k,
            menu.len(),
            positions,
            length
        ),
        c.len(),
        move |i, o| {
            let aut = || tree_stack_automaton(c.get(i).into_iter().map(|r| menu[r].clone()).collect(), kind);
            let f = |_: &u8| 0u8;
            let one = coarse_to_fine_recogniser!(aut(); TTSElement::new());
            let two = coarse_to_fine_recogniser!(aut(); TTSElement::new(), RlbElement::new(&f));
            let (ordered1, ordered2) = (bounded(&one.sublevel), bounded(&two.sublevel.sublevel) && bounded(&one.sublevel));
            for w in words(&[0u8], length) {
                like_direct(&aut(), &one, ordered1, &w, o).map_err(|e| format!("through a pushdown automaton: {}", e))?;
                like_direct(&aut(), &two, ordered2, &w, o).map_err(|e| format!("with one symbol: {}", e))?;
            }
            o.state(&i);
            Ok(())
        },
        move |i| format!("{:?}", d.get(i).into_iter().map(|r| m[r].clone()).collect::<Vec<_>>()),
    )
}

/// Pushdown automata that do not come from a grammar.
fn push_down_hierarchies(name: &'static str, k: usize, length: u32, kind: usize) -> Suite {
    let stacks = |n: u32| words(&[0u8, 1], n);
    let menu: Vec<(PushDownInstruction<u8>, Vec<u8>)> = stacks(2)
        .into_iter()
        .filter(|w| !w.is_empty())
        .flat_map(|current_val| {
            stacks(2).into_iter().flat_map(move |new_val| {
                // nothing that may go on for ever without reading anything, unless two do
                let ends = new_val.len() < current_val.len() || new_val.len() == current_val.len() && new_val != current_val;
                let i = PushDownInstruction::Replace { current_val: current_val.clone(), new_val };
                if ends { vec![(i.clone(), vec![]), (i, vec![0u8])] } else { vec![(i, vec![0u8])] }
            })
        })
        .collect();
    let c = Choices::new(menu.len(), k);
    let (m, d) = (menu.clone(), c.clone());
    Suite::new(
        name,
        format!(
            "all pushdown automata with at most {} of {} transitions: over two symbols, replace one or two symbols by up to two, read a or (if they do not grow the pushdown) nothing; from the \
             pushdown 2, 0; through pushdown automata where 0 and 1 coincide, with and without one in between; words of up to {} symbols; non-trivial: two runs",
            k,
            menu.len(),
            length
        ),
        c.len(),
        move |i, o| {
            let aut = || {
                let chosen: Vec<_> = c.get(i).into_iter().map(|r| menu[r].clone()).collect();
                let ws = dyadic(&costs(kind, chosen.len()));
                let ts = chosen.into_iter().zip(ws).map(|((instruction, word), weight)| Transition { word, weight, instruction });
                PushDownAutomaton::from_transitions(ts, PushDown::new(2u8, 0))
            };
            let f = |a: &u8| if *a == 1 { 0u8 } else { *a };
            let id = |a: &u8| *a + 5;
            let g = |a: &u8| if *a == 7 { 7u8 } else { 5 };
            let one = coarse_to_fine_recogniser!(aut(); RlbElement::new(&f));
            let two = coarse_to_fine_recogniser!(aut(); RlbElement::new(&id), RlbElement::new(&g));
            let (ordered1, ordered2) = (bounded(&one.sublevel), bounded(&two.sublevel.sublevel) && bounded(&one.sublevel));
            for w in words(&[0u8], length) {
                like_direct(&aut(), &one, ordered1, &w, o).map_err(|e| format!("through one: {}", e))?;
                like_direct(&aut(), &two, ordered2, &w, o).map_err(|e| format!("through two: {}", e))?;
            }
            o.state(&i);
            Ok(())
        },
        move |i| format!("{:?}", d.get(i).into_iter().map(|r| m[r].clone()).collect::<Vec<_>>()),
    )
}

pub fn c29() -> Check {
    Check {
        id: "C29",
        assumptions: vec![
            "grammars and hierarchies where the search at every level is obviously finite; that parses come in order is compared if no \
             transition of an approximation weighs more than 1, where best-first search is defined"
                .into(),
        ],
        build: |t: Tier| {
            vec![
                large_hierarchies(t),
                weighted_choices("weights-two", 2, t.pick(6, 8)),
                weighted_choices("weights-three", 3, t.pick(3, 4)),
                tree_stack_hierarchies("tree-stacks-one", 1, t.pick(3, 4), 2, 1),
                tree_stack_hierarchies("tree-stacks-two", 2, t.pick(2, 3), 2, 2),
                push_down_hierarchies("pushdowns", t.pick(3, 3), 2, 1),
                c25_mcfg::sets(
                    "cfg-two",
                    "all context-free grammars over two nonterminals with rules of at most two symbols × all hierarchies of one or two relations; words of up to three \
                     symbols and two with an unknown one; all parses; non-trivial: two parses",
                    c24_cfg::menu(2, 2, 2, 2),
                    t.pick(3, 4),
                    vec![1, 2],
                    |r, k, o| cfg_hierarchies(r, &costs(k, r.len()), 2, &[0], 12, &words_of(3), o),
                ),
                c25_mcfg::sets(
                    "cfg-three",
                    "all context-free grammars over three nonterminals with rules of at most one nonterminal, one terminal and two symbols × all hierarchies of one or \
                     two relations; all three nonterminals are initial; otherwise the same",
                    c24_cfg::menu(3, 1, 2, 1),
                    t.pick(3, 4),
                    vec![1],
                    |r, k, o| cfg_hierarchies(r, &costs(k, r.len()), 3, &[0, 1, 2], 12, &words_of(3), o),
                ),
                c25_mcfg::sets(
                    "cfg-choices",
                    "all context-free grammars over three nonterminals with two initial ones and up to four rules that have one symbol × the same: \
                     many derivations that coincide in the approximation; otherwise the same",
                    c24_cfg::menu(3, 1, 1, 1).into_iter().filter(|r| r.head != 0 || r.tail.len() == 1).collect(),
                    t.pick(4, 5),
                    vec![2],
                    |r, k, o| cfg_hierarchies(r, &costs(k, r.len()), 3, &[0, 1], 12, &words_of(3), o),
                ),
                c25_mcfg::sets(
                    "mcfg",
                    "all monotone grammars over nonterminals of fan-out 1 and 2 with rules of at most one nonterminal, one terminal and four symbols: through a pushdown \
                     automaton and all hierarchies of up to two relations on the heads; words of up to three symbols and two with an unknown one; all parses",
                    c25_mcfg::menu(&[1, 2], 1, 4, 1, 1),
                    t.pick(4, 5),
                    vec![1],
                    |r, k, o| mcfg_hierarchies(r, k, 2, 12, o),
                ),
                c25_mcfg::sets(
                    "mcfg-same",
                    "all monotone grammars over nonterminals of fan-out 1, 2 and 2 with rules of at most one nonterminal, one terminal and three symbols: \
                     the same with three heads",
                    c25_mcfg::menu(&[1, 2, 2], 1, 3, 1, 1),
                    t.pick(3, 4),
                    vec![2],
                    |r, k, o| mcfg_hierarchies(r, k, 3, 12, o),
                ),
            ]
        },
    }
}
