//! Parsing with the tree-stack automaton of a multiple context-free grammar against the
//! derivations of the grammar; beam search.

use crate::c24_cfg::{costs, words_of};
use crate::parse::{collect, compare, Cost, End, large_sizes, open_at_most, widths_around, with_open, LARGE, WIDTHS};
use log_domain::LogDomain;
use mc_common::enumerate::Choices;
use mc_common::gram::{all_rules, derivations_of, show, value, Der, Rule, Shape, S};
use mc_common::{Obs, Suite, Tier, Verdict};
use rustomata::automata::tree_stack_automaton::{to_abstract_syntax_tree, PosState, TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use rustomata::recognisable::{Configuration, Item, Recognisable, Transition};
use rustomata::util::tree::GornTree;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

pub type PRule<W> = PMCFGRule<u8, u8, W>;
pub type Automaton<W> = TreeStackAutomaton<PosState<PRule<W>>, u8, W>;
pub type Run<W> = Item<TreeStack<PosState<PRule<W>>>, TreeStackInstruction<PosState<PRule<W>>>, u8, W>;

pub fn prule<W: Clone>(r: &Rule, w: &W) -> PRule<W> {
    PMCFGRule {
        head: r.head,
        tail: r.tail.clone(),
        composition: Composition {
            composition: r
                .comp
                .iter()
                .map(|c| {
                    c.iter()
                        .map(|s| match s {
                            S::T(t) => VarT::T(*t),
                            S::V(i, j) => VarT::Var(*i, *j),
                        })
                        .collect()
                })
                .collect(),
        },
        weight: w.clone(),
    }
}

pub fn grammar<W: Clone>(rules: &[Rule], weights: &[W], initial: &[u8]) -> PMCFG<u8, u8, W> {
    PMCFG { initial: initial.to_vec(), rules: rules.iter().zip(weights).map(|(r, w)| prule(r, w)).collect() }
}

/// Are the components of each nonterminal used in order, each exactly once?
pub fn monotone(r: &Rule) -> bool {
    let mut next = vec![0; r.tail.len()];
    r.comp.iter().flatten().all(|s| match s {
        S::T(_) => true,
        S::V(i, j) => {
            next[*i] += 1;
            next[*i] == j + 1
        }
    })
}

/// The derivation in a tree of rules.
pub fn read_tree<W: Clone + PartialEq>(t: &GornTree<PRule<W>>, rules: &[PRule<W>]) -> Result<Der, String> {
    fn go<W: Clone + PartialEq>(t: &BTreeMap<Vec<usize>, usize>, at: &mut Vec<usize>, rules: &[PRule<W>], seen: &mut usize) -> Result<Der, String> {
        let rule = *t.get(at).ok_or_else(|| format!("nothing at {:?}", at))?;
        *seen += 1;
        let mut kids = Vec::new();
        for (i, n) in rules[rule].tail.iter().enumerate() {
            at.push(i);
            let k = go(t, at, rules, seen)?;
            if rules[k.rule].head != *n {
                return Err(format!("a rule for {} instead of {} at {:?}", rules[k.rule].head, n, at));
            }
            kids.push(Rc::new(k));
            at.pop();
        }
        Ok(Der { rule, kids })
    }
    let mut m = BTreeMap::new();
    for (a, r) in t.clone() {
        let i = rules.iter().position(|q| *q == r).ok_or_else(|| format!("no rule of the grammar at {:?}", a))?;
        m.insert(a, i);
    }
    let mut seen = 0;
    let d = go(&m, &mut Vec::new(), rules, &mut seen)?;
    if seen != m.len() {
        return Err(format!("{} rules in the tree, {} of them in the derivation", m.len(), seen));
    }
    Ok(d)
}

/// The derivation of a run, which is checked to be a run of the automaton on the word.
pub fn derivation<W: Copy + std::ops::Mul<Output = W> + num_traits::One + Ord + Debug>(
    Item(conf, run): &Run<W>,
    rules: &[PRule<W>],
    word: &[u8],
) -> Result<Der, String> {
    let mut at = Configuration { word: word.to_vec(), storage: TreeStack::new(PosState::Initial), weight: W::one() };
    let run: Vec<Transition<_, _, W>> = run.clone().into();
    for t in run {
        match t.apply(&at).pop() {
            Some(c) => at = c,
            None => return Err("the run applies a transition to a storage or word where it does not apply".into()),
        }
    }
    if !at.word.is_empty() || at.storage != conf.storage || !at.storage.is_at_bottom() {
        return Err("the run does not lead to the storage of the item, to the bottom and to the end of the word".into());
    }
    if at.weight != conf.weight {
        return Err(format!("the weights on the run make {:?}, the item has {:?}", at.weight, conf.weight));
    }
    read_tree(&to_abstract_syntax_tree(conf.storage.to_tree()), rules)
}

/// Can no nonterminal derive itself in one or more steps?
pub fn nonrecursive(rules: &[Rule]) -> bool {
    let n = 1 + rules.iter().flat_map(|r| r.tail.iter().chain([&r.head])).max().copied().unwrap_or(0) as usize;
    let mut reach = vec![vec![false; n]; n];
    for r in rules {
        for m in &r.tail {
            reach[r.head as usize][*m as usize] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if reach[i][k] && reach[k][j] {
                    reach[i][j] = true;
                }
            }
        }
    }
    (0..n).all(|i| !reach[i][i])
}

/// Does every component of every rule that contains a variable start with a terminal?
fn reading(rules: &[Rule]) -> bool {
    rules.iter().flat_map(|r| &r.comp).all(|c| !matches!(c.first(), Some(S::V(..))))
}

pub fn finite(rules: &[Rule]) -> bool {
    nonrecursive(rules) || reading(rules)
}

pub type Expected = BTreeMap<Der, i64>;

pub fn cost(d: &Der, costs: &[i64]) -> i64 {
    d.rules().iter().map(|r| costs[*r]).sum()
}

pub fn expected(rules: &[Rule], costs: &[i64], initial: &[u8], bound: i64) -> BTreeMap<Vec<u8>, Expected> {
    let least = costs.iter().min().copied().unwrap_or(1).max(1);
    let mut out: BTreeMap<Vec<u8>, Expected> = BTreeMap::new();
    for n in initial {
        for d in derivations_of(rules, *n, (bound / least) as usize) {
            let c = cost(&d, costs);
            if c <= bound {
                out.entry(value(rules, &d).remove(0)).or_default().insert((*d).clone(), c);
            }
        }
    }
    out
}

const BUDGET: u64 = 200_000;

fn run(rules: &[Rule], kind: usize, initial: &[u8], bound: i64, max_word: u32, obs: &mut Obs) -> Verdict {
    let costs = costs(kind, rules.len());
    let weights: Vec<Cost> = costs.iter().map(|c| Cost(Some(*c))).collect();
    let g = grammar(rules, &weights, initial);
    let prules = g.rules.clone();
    let a: Automaton<Cost> = TreeStackAutomaton::from(g);
    let exp = expected(rules, &costs, initial, bound);
    let fin = finite(rules);
    let none = Expected::new();
    for w in words_of(max_word) {
        let e = exp.get(&w).unwrap_or(&none);
        let (n, budget, more) = if fin { (usize::MAX, BUDGET * 10, 0) } else { (e.len(), BUDGET, 1) };
        let (found, end) = collect(|| a.recognise(w.clone()), n, budget, more, 1000)?;
        let mut runs = Vec::new();
        for (i, item) in found.iter().enumerate() {
            let d = derivation(item, &prules, &w).map_err(|e| format!("word {:?}, number {}: {}", w, i, e))?;
            runs.push((item.0.weight, d));
        }
        if fin && end != End::Done {
            return Err(format!("word {:?}: the search does not end", w));
        }
        compare(e, bound, &runs, end, true, &|d| {
            if initial.contains(&rules[d.rule].head) && value(rules, d)[0] == w { Some(cost(d, &costs)) } else { None }
        })
        .map_err(|e| format!("word {:?}: {}", w, e))?;
        obs.step();
        obs.trace();
        obs.outcome(&(runs.len(), w.len(), runs.first().map(|r| r.0)));
        if runs.len() > 1 || runs.len() == 1 && w.len() > 2 {
            obs.nontrivial();
            obs.note(|| format!("word {:?} has {} parses", w, runs.len()));
        }
    }
    obs.state(&(rules, kind));
    Ok(())
}

fn beams(rules: &[Rule], costs: &[i64], bound: i64, words: &[Vec<u8>], widths: &[(usize, bool)], obs: &mut Obs) -> Verdict {
    let weights: Vec<Cost> = costs.iter().map(|c| Cost(Some(*c))).collect();
    let g = grammar(rules, &weights, &[0]);
    let prules = g.rules.clone();
    let a: Automaton<Cost> = TreeStackAutomaton::from(g);
    let exp = expected(rules, costs, &[0], bound);
    let fin = finite(rules);
    let none = Expected::new();
    for w in words {
        let e = exp.get(w).unwrap_or(&none);
        let mut counts = Vec::new();
        let widths = with_open(widths, if fin { open_at_most(&a, w, 3000) } else { None });
        for &(beam, wide) in &widths {
            let (n, budget, more) = if fin { (usize::MAX, BUDGET * 10, 0) } else if wide { (e.len(), BUDGET, 1) } else { (e.len() + 1, 2000, 0) };
            let (found, end) = collect(|| a.recognise_beam_search(beam, w.clone()), n, budget, more, 1000)?;
            let mut runs = Vec::new();
            for item in &found {
                let d = derivation(item, &prules, w).map_err(|e| format!("word {:?}, beam {}: {}", w, beam, e))?;
                runs.push((item.0.weight, d));
            }
            if fin && end != End::Done {
                return Err(format!("word {:?}, beam {}: the search does not end", w, beam));
            }
            if !wide {
                runs.sort_by(|a, b| b.0.cmp(&a.0));
            }
            compare(e, bound, &runs, end, wide, &|d| {
                if rules[d.rule].head == 0 && value(rules, d)[0] == *w { Some(cost(d, costs)) } else { None }
            })
            .map_err(|e| format!("word {:?}, beam {}: {}", w, beam, e))?;
            obs.step();
            counts.push(runs.len());
        }
        obs.trace();
        obs.outcome(&counts);
        if counts[1] > 0 && counts[1] < *counts.last().unwrap() {
            obs.nontrivial();
            obs.note(|| format!("word {:?}: {:?} parses with beams {:?}", w, counts, widths));
        }
    }
    obs.state(&(rules, costs));
    Ok(())
}

/// All monotone rules of a shape.
pub fn menu(fanouts: &[usize], max_tail: u32, max_symbols: usize, max_terminals: usize, terminals: u8) -> Vec<Rule> {
    let sh = Shape { linear: true, nondeleting: true, ordered: false, max_terminals, max_symbols, terminals, epsilon_free: false };
    let mut v = all_rules(fanouts, max_tail, &sh);
    v.retain(monotone);
    v
}

/// Without the rules that use the initial nonterminal 0.
fn not_initial(mut menu: Vec<Rule>) -> Vec<Rule> {
    menu.retain(|r| !r.tail.contains(&0));
    menu
}

/// All sets of at most `k` rules of a menu that contain a rule for the initial nonterminal 0.
pub fn sets(
    name: &'static str,
    rule: &str,
    menu: Vec<Rule>,
    k: usize,
    kinds: Vec<usize>,
    f: impl Fn(&[Rule], usize, &mut Obs) -> Verdict + Send + Sync + 'static,
) -> Suite {
    let c = Choices::new(menu.len(), k);
    let menu = Arc::new(menu);
    let (m, d) = (menu.clone(), c.clone());
    let n = kinds.len() as u64;
    let ks = kinds.clone();
    Suite::new(
        name,
        format!("{} (sets of at most {} of {} rules, {} assignments of weights)", rule, k, menu.len(), n),
        c.len() * n,
        move |i, o| {
            let rules: Vec<Rule> = c.get(i / n).into_iter().map(|r| menu[r].clone()).collect();
            if !useful(&rules) {
                return Ok(());
            }
            f(&rules, kinds[(i % n) as usize], o)
        },
        move |i| {
            let rules: Vec<Rule> = d.get(i / n).into_iter().map(|r| m[r].clone()).collect();
            format!("{} with costs {:?}", show(&rules), costs(ks[(i % n) as usize], rules.len()))
        },
    )
}

/// Is there a rule for 0, and are all heads reachable from 0?
pub fn useful(rules: &[Rule]) -> bool {
    let mut seen = vec![0u8];
    let mut i = 0;
    while i < seen.len() {
        let head = seen[i];
        for r in rules.iter().filter(|r| r.head == head) {
            for n in &r.tail {
                if !seen.contains(n) {
                    seen.push(*n);
                }
            }
        }
        i += 1;
    }
    rules.iter().any(|r| r.head == 0) && rules.iter().all(|r| seen.contains(&r.head))
}

/// Several, no, repeated and useless initial nonterminals; unreachable rules.
fn initials(tier: Tier) -> Suite {
    let menu = menu(&[1, 1], 1, 2, 1, 2);
    let c = Choices::new(menu.len(), tier.pick(2, 3));
    let inits: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 0], vec![0, 1, 0], vec![5], vec![5, 1]];
    let n = inits.len() as u64;
    let menu = Arc::new(menu);
    let (m, d, ins) = (menu.clone(), c.clone(), inits.clone());
    Suite::new(
        "initials",
        "all sets of at most 2 (3) rules over two nonterminals of fan-out 1 with at most two symbols, with nine lists of initial \
         nonterminals: none, both, one that has no rules, repeated ones; words of up to two symbols; non-trivial: two parses",
        c.len() * n,
        move |i, o| {
            let rules: Vec<Rule> = c.get(i / n).into_iter().map(|r| menu[r].clone()).collect();
            run(&rules, 0, &inits[(i % n) as usize], 4, 2, o)
        },
        move |i| {
            let rules: Vec<Rule> = d.get(i / n).into_iter().map(|r| m[r].clone()).collect();
            format!("initial {:?}, {}", ins[(i % n) as usize], show(&rules))
        },
    )
}

/// Probabilities as in practice, in the logarithmic domain.
fn probabilities(tier: Tier) -> Suite {
    sets(
        "probabilities",
        "grammars over two nonterminals of fan-out 1 whose search is finite, with weights 0.7, 0.2, 0.05, … in the logarithmic \
         domain; words of up to three symbols; non-trivial: two parses",
        menu(&[1, 1], 2, 2, 2, 1),
        tier.pick(4, 5),
        vec![0],
        |rules, _, obs| {
            if !finite(rules) {
                return Ok(());
            }
            let ws = [0.7, 0.2, 0.05, 0.3, 0.1];
            let weights: Vec<LogDomain<f64>> = (0..rules.len()).map(|i| LogDomain::new(ws[i]).unwrap()).collect();
            let g = grammar(rules, &weights, &[0]);
            let prules = g.rules.clone();
            let a: Automaton<LogDomain<f64>> = TreeStackAutomaton::from(g);
            let exp = expected(rules, &vec![1; rules.len()], &[0], 6);
            let none = Expected::new();
            for w in words_of(3) {
                let found: Vec<_> = a.recognise(w.clone()).collect();
                let e = exp.get(&w).unwrap_or(&none);
                let mut seen: Vec<Der> = Vec::new();
                for (i, item) in found.iter().enumerate() {
                    let d = derivation(item, &prules, &w).map_err(|e| format!("word {:?}: {}", w, e))?;
                    let p: f64 = d.rules().iter().map(|r| ws[*r]).product();
                    if value(rules, &d)[0] != w || seen.contains(&d) {
                        return Err(format!("word {:?}: {} is no parse, or found twice", w, d.show()));
                    }
                    if (item.0.weight.value() / p - 1.0).abs() > 1e-9 {
                        return Err(format!("word {:?}: {} has weight {}, not {}", w, d.show(), item.0.weight.value(), p));
                    }
                    if i > 0 && found[i - 1].0.weight < item.0.weight {
                        return Err(format!("word {:?}: number {} is better than the one before", w, i));
                    }
                    seen.push(d);
                }
                if let Some(m) = e.keys().find(|k| !seen.contains(k)) {
                    return Err(format!("word {:?}: {} is not found", w, m.show()));
                }
                obs.step();
                obs.trace();
                obs.outcome(&seen.len());
                if seen.len() > 1 {
                    obs.nontrivial();
                }
            }
            obs.state(rules);
            Ok(())
        },
    )
}

/// Families of grammars with one derivation for a word, by size.
pub fn family(n: usize, kind: usize) -> (Vec<Rule>, Vec<u8>, Vec<u8>, usize) {
    let v = S::V;
    let rule = |head: u8, tail: Vec<u8>, comp: Vec<Vec<S>>| Rule { head, tail, comp };
    match kind {
        // aⁿ bⁿ cⁿ … in the components of one nonterminal of fan-out 2: aⁿ bⁿ aⁿ bⁿ
        0 => {
            let rs = vec![
                rule(0, vec![1], vec![vec![v(0, 0), v(0, 1)]]),
                rule(1, vec![1], vec![vec![S::T(0), v(0, 0), S::T(1)], vec![S::T(0), v(0, 1), S::T(1)]]),
                rule(1, vec![], vec![vec![], vec![]]),
            ];
            let half = [vec![0; n], vec![1; n]].concat();
            (rs, [half.clone(), half.clone()].concat(), [half.clone(), half[1..].to_vec()].concat(), 1)
        }
        // n rules for one word
        1 => {
            let m = n.min(200);
            let mut rs: Vec<Rule> = (0..m).map(|i| rule(0, vec![1 + i as u8], vec![vec![v(0, 0), S::T(1), v(0, 1)]])).collect();
            rs.extend((0..m).map(|i| rule(1 + i as u8, vec![], vec![vec![S::T(0)], vec![S::T(0)]])));
            (rs, vec![0, 1, 0], vec![0, 1], m)
        }
        // a chain of n nonterminals
        2 => {
            let m = n.min(200);
            let mut rs = vec![rule(0, vec![1], vec![vec![v(0, 0), v(0, 1)]])];
            rs.extend((1..m).map(|i| rule(i as u8, vec![1 + i as u8], vec![vec![v(0, 0)], vec![v(0, 1)]])));
            rs.push(rule(m as u8, vec![], vec![vec![S::T(0)], vec![S::T(1)]]));
            (rs, vec![0, 1], vec![1, 0], 1)
        }
        // fan-out n: xⁿ through n components, twice
        3 => {
            let rs = vec![
                rule(0, vec![1], vec![(0..n).map(|j| v(0, j)).collect()]),
                rule(1, vec![2], (0..n).map(|j| vec![v(0, j), S::T((j % 2) as u8)]).collect()),
                rule(2, vec![], (0..n).map(|j| if j % 3 == 0 { vec![] } else { vec![S::T(0)] }).collect()),
            ];
            let w: Vec<u8> = (0..n).flat_map(|j| if j % 3 == 0 { vec![(j % 2) as u8] } else { vec![0, (j % 2) as u8] }).collect();
            let mut wrong = w.clone();
            *wrong.last_mut().unwrap() ^= 1;
            (rs, w, wrong, 1)
        }
        // one rule with n nonterminals of fan-out 2, crossing
        _ => {
            let rs = vec![
                rule(0, vec![1; n], vec![(0..2 * n).map(|k| v(k % n, k / n)).collect()]),
                rule(1, vec![], vec![vec![S::T(0)], vec![S::T(1)]]),
            ];
            (rs, [vec![0; n], vec![1; n]].concat(), [vec![0; n], vec![1; n + 1]].concat(), 1)
        }
    }
}

/// Long words and many rules.
fn large(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(20usize, 40)).chain([63, 64, 65, 100]) {
        for kind in 0..5 {
            cases.push((n, kind));
        }
    }
    Suite::over(
        "large",
        "grammars with one derivation or a plain number of them, for all n up to 20 (40) and some up to 100: two synchronous centre \
         embeddings, n rules for one word, a chain of n nonterminals, fan-out n, a rule with n crossing nonterminals; with a wrong \
         word each",
        cases,
        |&(n, kind), obs| {
            let (rules, word, wrong, number) = family(n, kind);
            let costs: Vec<i64> = (0..rules.len() as i64).map(|i| i % 5).collect();
            let weights: Vec<Cost> = costs.iter().map(|c| Cost(Some(*c))).collect();
            let g = grammar(&rules, &weights, &[0]);
            let prules = g.rules.clone();
            let a: Automaton<Cost> = TreeStackAutomaton::from(g);
            if a.recognise(wrong.clone()).next().is_some() {
                return Err("the wrong word is accepted".into());
            }
            let found: Vec<_> = a.recognise(word.clone()).collect();
            if found.len() != number {
                return Err(format!("{} parses instead of {}", found.len(), number));
            }
            let mut last = i64::MIN;
            for item in &found {
                let d = derivation(item, &prules, &word)?;
                let c = cost(&d, &costs);
                if rules[d.rule].head != 0 || value(&rules, &d)[0] != word || item.0.weight != Cost(Some(c)) || c < last {
                    return Err(format!("{} with weight {:?} (cost {}, before: {})", d.show(), item.0.weight, c, last));
                }
                last = c;
                obs.step();
            }
            obs.trace();
            obs.state(&(n, kind));
            obs.outcome(&(n, kind));
            if n > 1 {
                obs.nontrivial();
            }
            Ok(())
        },
        |c| format!("{:?} (n, kind)", c),
    )
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let text = |s: &str| format!("all monotone, linear and non-deleting grammars {}, all heads reachable; words of up to three (four) symbols and two with an unknown symbol; all parses up to a cost (all there are if the search is obviously finite); non-trivial: two parses or a long word", s);
    let l = t.pick(3, 4);
    vec![
        large(t),
        sets("fan-out-2", &text("over nonterminals of fan-out 1 and 2, rules of at most one nonterminal, one terminal and four symbols"), menu(&[1, 2], 1, 4, 1, 2), t.pick(3, 4), vec![1], move |r, k, o| run(r, k, &[0], 6, l, o)),
        sets("two-successors", &text("over nonterminals of fan-out 1 and 2, rules of at most two nonterminals of fan-out 2, one terminal and four symbols"), not_initial(menu(&[1, 2], 2, 4, 1, 1)), t.pick(3, 4), vec![2], move |r, k, o| run(r, k, &[0], 6, l, o)),
        sets("terminals", &text("over nonterminals of fan-out 1 and 2, rules of at most one nonterminal, three terminals and five symbols"), not_initial(menu(&[1, 2], 1, 5, 3, 2)), t.pick(2, 2), vec![1], move |r, k, o| run(r, k, &[0], 4, t.pick(3, 5), o)),
        sets("fan-out-3", &text("over nonterminals of fan-out 1 and 3, rules of at most one nonterminal, one terminal and four symbols"), menu(&[1, 3], 1, 4, 1, 1), t.pick(3, 4), vec![1], move |r, k, o| run(r, k, &[0], 6, l, o)),
        sets("three", &text("over nonterminals of fan-out 1, 2 and 2, rules of at most one nonterminal, one terminal and three symbols"), menu(&[1, 2, 2], 1, 3, 1, 1), t.pick(3, 4), vec![1], move |r, k, o| run(r, k, &[0], 6, l, o)),
        sets("two", &text("over two nonterminals of fan-out 1, rules of at most two symbols"), menu(&[1, 1], 2, 2, 2, 2), t.pick(3, 4), vec![1], move |r, k, o| run(r, k, &[0], 5, 3, o)),
        initials(t),
        probabilities(t),
    ]
}

pub fn beam_suites(t: Tier) -> Vec<Suite> {
    let text = "all monotone, linear and non-deleting grammars over nonterminals of fan-out 1 and 2 with rules of at most one nonterminal, one terminal \
                and four symbols; words of up to three symbols and two with an unknown symbol; beams 0, 1, 2, 3, 5, 100000 and the largest number; non-trivial: a beam of 1 \
                finds some but not all";
    vec![
        sets("mcfg", text, menu(&[1, 2], 1, 4, 1, 2), t.pick(2, 3), vec![1], |r, k, o| beams(r, &costs(k, r.len()), 5, &words_of(3), &WIDTHS, o)),
        Suite::over(
            "mcfg-large",
            LARGE,
            large_sizes(t),
            |&n, o| {
                let (rules, word, wrong, _) = family(n, 1);
                let costs: Vec<i64> = (0..rules.len() as i64).map(|i| i % 5).collect();
                beams(&rules, &costs, 8, &[word, wrong], &widths_around(n), o)
            },
            |n| format!("{} parses", n),
        ),
    ]
}
