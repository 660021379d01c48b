//! C14, C15, C16: conversions between grammar formalisms and the checks of well-formedness.

use mc_common::enumerate::{digits, permutations, subsets, words, Choices, Sequences};
use mc_common::gram::{all_rules, derivations, show, value, Der, Rule, Shape, S};
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::grammars::cfg::{LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

pub fn to_comp(c: &[Vec<S>]) -> Composition<u8> {
    Composition {
        composition: c
            .iter()
            .map(|c| {
                c.iter()
                    .map(|s| match *s {
                        S::T(t) => VarT::T(t),
                        S::V(i, j) => VarT::Var(i, j),
                    })
                    .collect()
            })
            .collect(),
    }
}

/// The rule with its number as weight.
pub fn to_rule(i: usize, r: &Rule) -> PMCFGRule<u8, u8, usize> {
    PMCFGRule { head: r.head, tail: r.tail.clone(), composition: to_comp(&r.comp), weight: i }
}

fn of_comp(c: &Composition<u8>) -> Vec<Vec<S>> {
    c.composition
        .iter()
        .map(|c| {
            c.iter()
                .map(|s| match *s {
                    VarT::T(t) => S::T(t),
                    VarT::Var(i, j) => S::V(i, j),
                })
                .collect()
        })
        .collect()
}

/// A derivation in terms of the weights of its rules, with its yield.
fn named(rules: &[Rule], weights: &[usize], d: &Der) -> (String, Vec<Vec<u8>>) {
    fn go(d: &Der, weights: &[usize]) -> String {
        format!("{}({})", weights[d.rule], d.kids.iter().map(|k| go(k, weights)).collect::<Vec<_>>().join(" "))
    }
    (go(d, weights), value(rules, d))
}

// ---------------------------------------------------------------------------------------------
// C14

fn to_lcfrs(rules: &[Rule], size: usize, obs: &mut Obs) -> Verdict {
    if !rules.iter().any(|r| r.head == 0) {
        return Ok(());
    }
    let pm = PMCFG { initial: vec![0u8], rules: rules.iter().enumerate().map(|(i, r)| to_rule(i, r)).collect::<Vec<_>>() };
    let mcfg = Mcfg::from_pmcfg(pm).ok_or("not accepted as an MCFG")?;
    let lcfrs: Lcfrs<(u8, BTreeSet<usize>), u8, usize> = catch(|| mcfg.into()).map_err(|p| format!("panics: {}", p))?;
    let (out, init) = lcfrs.destruct();
    obs.state(rules);

    // well-formed?
    let fanouts: BTreeMap<u8, usize> = rules.iter().map(|r| (r.head, r.comp.len())).collect();
    let fanout = |n: &(u8, BTreeSet<usize>)| fanouts.get(&n.0).map(|f| f - n.1.iter().filter(|j| *j < f).count());
    if init != (0, BTreeSet::new()) || fanout(&init) != Some(1) {
        return Err(format!("the initial nonterminal is {:?}", init));
    }
    for r in &out {
        obs.step();
        if fanout(&r.head) != Some(r.composition.composition.len()) {
            return Err(format!("a rule of {:?} has {} components", r.head, r.composition.composition.len()));
        }
        let mut uses: BTreeMap<(usize, usize), usize> = BTreeMap::new();
        for s in of_comp(&r.composition).into_iter().flatten() {
            if let S::V(i, j) = s {
                *uses.entry((i, j)).or_default() += 1;
            }
        }
        let e: BTreeMap<(usize, usize), usize> = r
            .tail
            .iter()
            .enumerate()
            .flat_map(|(i, n)| (0..fanout(n).unwrap_or(0)).map(move |j| ((i, j), 1)))
            .collect();
        if uses != e || r.tail.iter().any(|n| fanout(n).is_none()) {
            return Err(format!("the composition {:?} over {:?} is not linear and non-deleting", r.composition, r.tail));
        }
    }
    let mut heads: BTreeSet<_> = out.iter().map(|r| r.head.clone()).collect();
    heads.insert(init.clone());
    if out.iter().all(|r| r.tail.iter().all(|n| heads.contains(n))) && out.iter().any(|r| r.head == init) {
        let tails: BTreeSet<_> = out.iter().flat_map(|r| r.tail.iter().cloned()).collect();
        if tails.iter().all(|n| out.iter().any(|r| r.head == *n)) && Lcfrs::new(out.clone(), init.clone()).is_none() {
            return Err("the result is not accepted as an LCFRS".into());
        }
    }

    // the same derivations?
    let numbers: BTreeMap<_, u8> = heads
        .iter()
        .cloned()
        .chain(out.iter().flat_map(|r| r.tail.iter().cloned()))
        .collect::<BTreeSet<_>>()
        .into_iter()
        .enumerate()
        .map(|(i, n)| (n, i as u8))
        .collect();
    let plain: Vec<Rule> = out
        .iter()
        .map(|r| Rule { head: numbers[&r.head], tail: r.tail.iter().map(|n| numbers[n]).collect(), comp: of_comp(&r.composition) })
        .collect();
    let weights: Vec<usize> = out.iter().map(|r| r.weight).collect();
    let ids: Vec<usize> = (0..rules.len()).collect();
    let mut e: Vec<_> = start(rules, 0, size).iter().map(|d| named(rules, &ids, d)).collect();
    let mut got: Vec<_> = start(&plain, numbers[&init], size).iter().map(|d| named(&plain, &weights, d)).collect();
    e.sort();
    got.sort();
    obs.steps(e.len());
    if got != e {
        let missing = e.iter().find(|x| !got.contains(x));
        let extra = got.iter().find(|x| !e.contains(x));
        return Err(format!("derivations (by weights) and yields: missing {:?}, additional {:?}; {} instead of {}", missing, extra, got.len(), e.len()));
    }
    obs.trace();
    obs.outcome(&e);
    if numbers.len() > fanouts.len() && !e.is_empty() {
        obs.nontrivial();
        obs.note(|| format!("{} becomes {}", show(rules), show(&plain)));
    }
    Ok(())
}

fn start(rules: &[Rule], n: u8, size: usize) -> Vec<Rc<Der>> {
    derivations(rules, size).remove(&n).map_or(vec![], |v| v.into_iter().flatten().collect())
}

const MCFG: Shape =
    Shape { linear: true, nondeleting: false, ordered: false, max_terminals: 1, max_symbols: 3, terminals: 1, epsilon_free: false };

fn grammars(
    name: &'static str,
    fanouts: &'static [usize],
    max_tail: u32,
    sh: Shape,
    k: usize,
    size: usize,
    run: fn(&[Rule], usize, &mut Obs) -> Verdict,
) -> Suite {
    let menu = Arc::new(all_rules(fanouts, max_tail, &sh));
    let choices = Choices::new(menu.len(), k);
    let get = {
        let menu = menu.clone();
        let choices = choices.clone();
        move |i: u64| -> Vec<Rule> { choices.get(i).into_iter().map(|j| menu[j].clone()).collect() }
    };
    let g2 = get.clone();
    Suite::new(
        name,
        "all sets of at most k rules over nonterminals with given fan-outs; derivations are compared up to a number of nodes; non-trivial: the result differs from the original (or is refused)",
        choices.len(),
        move |i, o| run(&get(i), size, o),
        move |i| show(&g2(i)),
    )
}

/// Rules with long compositions and many nonterminals, used once.
fn deep(tier: Tier) -> Suite {
    // a chain S → A1 → A2 …: each rule forwards some components of the next nonterminal (fan-out 3)
    let f = 3usize;
    let all = subsets(&(0..f).collect::<Vec<_>>(), 0, f);
    let levels = tier.pick(3u32, 4);
    let n = all.len() as u64;
    // per level: which components are used (each for the component of the same number, the
    // others are terminals), and whether the order is reversed
    let build = move |i: u64| -> Vec<Rule> {
        let mut radices = vec![2, f as u64];
        radices.extend(vec![n; levels as usize]);
        let d = digits(i, &radices);
        let mut rules = vec![Rule { head: 0, tail: vec![1], comp: vec![vec![S::V(0, d[1])]] }];
        for l in 0..levels as usize {
            let used = &all[d[2 + l]];
            let mut comp: Vec<Vec<S>> = (0..f).map(|j| if used.contains(&j) { vec![S::V(0, j), S::T(l as u8)] } else { vec![S::T(10 + l as u8)] }).collect();
            if d[0] == 1 {
                comp.reverse();
            }
            rules.push(Rule { head: 1 + l as u8, tail: vec![2 + l as u8], comp });
        }
        rules.push(Rule { head: 1 + levels as u8, tail: vec![], comp: (0..f).map(|j| vec![S::T(20 + j as u8)]).collect() });
        // also a loop
        rules.push(Rule { head: 1 + levels as u8, tail: vec![1], comp: (0..f).map(|j| vec![S::V(0, (j + 1) % f)]).collect() });
        rules
    };
    let b2 = build.clone();
    Suite::new(
        "chains",
        "all chains of 3 (4) rules that forward any set of the three components of the next nonterminal, closed to a loop; non-trivial: components are deleted",
        2 * f as u64 * n.pow(levels),
        move |i, o| to_lcfrs(&build(i), 2 * levels as usize + 4, o),
        move |i| show(&b2(i)),
    )
}

/// A nonterminal with many components of which some are used, and many successors.
fn wide(tier: Tier) -> Suite {
    let mut cases: Vec<(usize, Vec<usize>)> = Vec::new();
    let small = tier.pick(6, 8);
    for f in 1..=small {
        cases.extend(subsets(&(0..f).collect::<Vec<_>>(), 0, f).into_iter().map(|s| (f, s)));
    }
    for f in (small + 1..=tier.pick(16, 24)).chain([31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200]) {
        let all: Vec<usize> = (0..f).collect();
        cases.push((f, all.clone()));
        cases.push((f, all.iter().cloned().filter(|j| j % 2 == 0).collect()));
        cases.push((f, all.iter().cloned().filter(|j| j % 3 != 1).collect()));
        for j in all.iter().cloned().filter(|j| *j < 3 || *j + 3 > f || j % 16 < 2 || j % 16 == 15) {
            cases.push((f, vec![j]));
            cases.push((f, all.iter().cloned().filter(|k| *k != j).collect()));
        }
    }
    Suite::over(
        "wide",
        "a nonterminal with up to 6 (8) components of which any set is used, in order or reversed; up to 16 (24) and some of up \
         to 200 components of which one, all but one, or every second or third is used; as many successors of which the same \
         are used; non-trivial: components are deleted",
        cases,
        |(f, used), o| {
            let f = *f;
            for reversed in 0..2 {
                let mut order = used.clone();
                if reversed == 1 {
                    order.reverse();
                }
                let letter = |j: usize| S::T(j as u8);
                // components: S uses some of A's, which are B's the other way around
                let components = vec![
                    Rule { head: 0, tail: vec![1], comp: vec![order.iter().map(|j| S::V(0, *j)).collect()] },
                    Rule { head: 1, tail: vec![2], comp: (0..f).map(|j| vec![S::V(0, f - 1 - j)]).collect() },
                    Rule { head: 1, tail: vec![], comp: (0..f).map(|j| vec![letter(j)]).collect() },
                    Rule { head: 2, tail: vec![], comp: (0..f).map(|j| vec![letter(j), S::T(255)]).collect() },
                ];
                to_lcfrs(&components, 4, o)?;
                // successors: S uses those of some of the As
                let successors = vec![
                    Rule { head: 0, tail: (0..f).map(|j| 1 + (j % 2) as u8).collect(), comp: vec![order.iter().map(|j| S::V(*j, 0)).collect()] },
                    Rule { head: 1, tail: vec![], comp: vec![vec![letter(0)]] },
                    Rule { head: 2, tail: vec![], comp: vec![vec![letter(1)]] },
                ];
                to_lcfrs(&successors, f + 1, o)?;
                // successors with two components each: of some the first one is used, of the others the last
                let comp = (0..f).map(|j| S::V(j, if used.contains(&j) { 0 } else { 1 })).collect();
                let halves = vec![
                    Rule { head: 0, tail: vec![1; f], comp: vec![comp] },
                    Rule { head: 1, tail: vec![], comp: vec![vec![letter(0)], vec![letter(1)]] },
                ];
                to_lcfrs(&halves, f + 1, o)?;
            }
            o.outcome(&(f, used));
            Ok(())
        },
        |(f, used)| format!("{} components, used: {:?}", f, used),
    )
}

pub fn c14() -> Check {
    Check {
        id: "C14",
        assumptions: vec!["the rules agree on the fan-outs of the nonterminals and use existing components only"],
        build: |t| {
            vec![
                grammars("one-two", &[1, 2], 1, MCFG, t.pick(3, 4), t.pick(6, 7), to_lcfrs),
                grammars("binary", &[1, 2], 2, Shape { max_terminals: 0, max_symbols: 2, ..MCFG }, t.pick(3, 3), t.pick(5, 7), to_lcfrs),
                grammars("one-two-one", &[1, 2, 1], 1, Shape { max_terminals: 1, max_symbols: 1, ..MCFG }, t.pick(4, 5), t.pick(6, 8), to_lcfrs),
                grammars("one-three", &[1, 3], 1, Shape { max_terminals: 0, max_symbols: 3, ..MCFG }, t.pick(3, 3), t.pick(5, 7), to_lcfrs),
                grammars("one-zero", &[1, 0, 2], 2, Shape { max_terminals: 1, max_symbols: 1, ..MCFG }, t.pick(3, 3), t.pick(5, 6), to_lcfrs),
                deep(t),
                wide(t),
            ]
        },
    }
}

// ---------------------------------------------------------------------------------------------
// C15

fn is_lcfrs(rules: &[Rule], init: u8) -> bool {
    let mut fanouts: BTreeMap<u8, usize> = BTreeMap::new();
    for r in rules {
        if *fanouts.entry(r.head).or_insert(r.comp.len()) != r.comp.len() {
            return false;
        }
    }
    if fanouts.get(&init) != Some(&1) {
        return false;
    }
    rules.iter().all(|r| {
        let mut used: Vec<(usize, usize)> =
            r.comp.iter().flatten().filter_map(|s| if let S::V(i, j) = *s { Some((i, j)) } else { None }).collect();
        used.sort();
        let mut e = Vec::new();
        for (i, n) in r.tail.iter().enumerate() {
            match fanouts.get(n) {
                None => return false,
                Some(&f) => e.extend((0..f).map(|j| (i, j))),
            }
        }
        used == e
    })
}

fn accept(rules: &[Rule], init: u8, obs: &mut Obs) -> Verdict {
    let real: Vec<PMCFGRule<u8, u8, usize>> = rules.iter().enumerate().map(|(i, r)| to_rule(i, r)).collect();
    obs.state(&(rules, init));
    let e = is_lcfrs(rules, init);
    let l = catch(|| Lcfrs::new(real.clone(), init)).map_err(|p| format!("Lcfrs::new panics: {}", p))?;
    obs.step();
    match (l, e) {
        (Some(_), false) => return Err("accepted as an LCFRS".into()),
        (None, true) => return Err("refused as an LCFRS".into()),
        (Some(l), true) => {
            let normal = l.in_normal_form();
            let n = rules.iter().all(|r| {
                r.comp.iter().all(|c| !c.is_empty())
                    && (r.comp.iter().flatten().all(|s| matches!(s, S::V(..))) || matches!(&r.comp[..], [c] if matches!(c[..], [S::T(_)])))
            });
            if n != normal {
                return Err(format!("in normal form: {}, not {}", normal, n));
            }
            let (out, i) = l.destruct();
            same_rules(&out, rules)?;
            if i != init {
                return Err(format!("the initial nonterminal is {}", i));
            }
            obs.outcome(&(rules.len(), normal));
            obs.nontrivial();
            obs.note(|| show(rules));
        }
        (None, false) => obs.outcome("refused"),
    }
    let linear = rules.iter().all(|r| {
        let used: Vec<&S> = r.comp.iter().flatten().filter(|s| matches!(s, S::V(..))).collect();
        used.iter().collect::<BTreeSet<_>>().len() == used.len()
    });
    for initial in [vec![init], vec![], vec![init, 1], vec![init, init]] {
        obs.step();
        let m = catch(|| Mcfg::from_pmcfg(PMCFG { initial: initial.clone(), rules: real.clone() }))
            .map_err(|p| format!("Mcfg::from_pmcfg panics: {}", p))?;
        let e = linear && initial.len() == 1;
        match m {
            Some(m) if e => {
                let (out, i) = m.destruct();
                same_rules(&out, rules)?;
                if i != init {
                    return Err(format!("the initial nonterminal of the MCFG is {}", i));
                }
            }
            None if !e => (),
            Some(_) => return Err(format!("accepted as an MCFG with initial nonterminals {:?}", initial)),
            None => return Err(format!("refused as an MCFG with initial nonterminals {:?}", initial)),
        }
    }
    obs.trace();
    Ok(())
}

fn same_rules(out: &[PMCFGRule<u8, u8, usize>], rules: &[Rule]) -> Verdict {
    let plain: Vec<(Rule, usize)> =
        out.iter().map(|r| (Rule { head: r.head, tail: r.tail.clone(), comp: of_comp(&r.composition) }, r.weight)).collect();
    let e: Vec<(Rule, usize)> = rules.iter().cloned().enumerate().map(|(i, r)| (r, i)).collect();
    if plain != e {
        return Err(format!("the rules are {:?}", plain));
    }
    Ok(())
}

/// Rules with any variables at all.
fn wild_rules(tails: &[Vec<u8>], heads: u8, max: u32, max_fanout: usize) -> Vec<Rule> {
    let letters = [S::T(0), S::V(0, 0), S::V(0, 1), S::V(1, 0), S::V(1, 1)];
    let seq = Sequences::new(letters.len(), max);
    let mut out = Vec::new();
    for head in 0..heads {
        for tail in tails {
            for i in 0..seq.len() {
                let s: Vec<S> = seq.get(i).into_iter().map(|l| letters[l]).collect();
                for f in 0..=max_fanout {
                    if f == 0 {
                        if s.is_empty() {
                            out.push(Rule { head, tail: tail.clone(), comp: vec![] });
                        }
                    } else if f == 1 {
                        out.push(Rule { head, tail: tail.clone(), comp: vec![s.clone()] });
                    } else {
                        for k in 0..=s.len() {
                            out.push(Rule { head, tail: tail.clone(), comp: vec![s[..k].to_vec(), s[k..].to_vec()] });
                        }
                    }
                }
            }
        }
    }
    out
}

fn rule_sets(name: &'static str, menu: Vec<Rule>, k: usize) -> Suite {
    let menu = Arc::new(menu);
    let choices = Choices::new(menu.len(), k);
    let get = {
        let choices = choices.clone();
        move |i: u64| -> (Vec<Rule>, u8) { (choices.get(i / 2).into_iter().map(|j| menu[j].clone()).collect(), (i % 2) as u8) }
    };
    let g2 = get.clone();
    Suite::new(
        name,
        "all sets of at most k rules of a menu with any variables, existing or not; non-trivial: accepted as an LCFRS",
        choices.len() * 2,
        move |i, o| {
            let (r, init) = get(i);
            accept(&r, init, o)
        },
        move |i| {
            let (r, init) = g2(i);
            format!("initial {}: {}", ["S", "A"][init as usize], show(&r))
        },
    )
}

/// Permutations and repetitions of many variables in one rule.
fn one_rule(tier: Tier) -> Suite {
    // a rule with two nonterminals of fan-outs 0..=3 and all sequences over their variables
    let max = tier.pick(5, 6);
    let letters = [S::V(0, 0), S::V(0, 1), S::V(0, 2), S::V(1, 0), S::V(1, 1), S::V(1, 2)];
    let seq = Sequences::new(letters.len(), max);
    let build = move |i: u64| -> Vec<Rule> {
        let d = digits(i, &[seq.len(), 4, 4]);
        let comp: Vec<S> = seq.get(d[0] as u64).into_iter().map(|l| letters[l]).collect();
        let leaf = |h: u8, f: usize| Rule { head: h, tail: vec![], comp: vec![vec![S::T(0)]; f] };
        vec![Rule { head: 0, tail: vec![1, 2], comp: vec![comp] }, leaf(1, d[1]), leaf(2, d[2])]
    };
    let b2 = build;
    Suite::new(
        "one-rule",
        "all sequences of at most 5 (6) of six variables over nonterminals with fan-outs 0 to 3; non-trivial: accepted as an LCFRS",
        seq.len() * 16,
        move |i, o| accept(&build(i), 0, o),
        move |i| show(&b2(i)),
    )
}

/// Large well-formed grammars, and what one change makes of them.
fn large(tier: Tier) -> Suite {
    let sizes: Vec<usize> = (1..=tier.pick(10, 20)).chain([31, 32, 33, 63, 64, 65, 100]).collect();
    let mut cases = Vec::new();
    for n in sizes {
        for family in 0..5 {
            for last in [false, true] {
                cases.push((n, family, last));
            }
        }
    }
    Suite::over(
        "large",
        "grammars with up to 10 (20) and some of up to 100 components, nonterminals on the right, symbols, rules or nonterminals, \
         whole and with each single variable lost, doubled, renumbered or exchanged for a terminal, each component lost or \
         added, each nonterminal on the right lost, added or exchanged, each rule lost; non-trivial: accepted as an LCFRS",
        cases,
        |&(n, family, last), o| {
            let leaf = |head: usize, fanout: usize| Rule { head: head as u8, tail: vec![], comp: vec![vec![S::T(0)]; fanout] };
            let mut rules: Vec<Rule> = match family {
                // many components
                0 => vec![Rule { head: 0, tail: vec![1], comp: vec![(0..n).map(|j| S::V(0, (j + n / 2) % n)).collect()] }, leaf(1, n)],
                1 => vec![
                    Rule { head: 0, tail: vec![1], comp: vec![(0..n).rev().map(|j| S::V(0, j)).collect()] },
                    Rule { head: 1, tail: vec![1], comp: (0..n).map(|j| vec![S::T(1), S::V(0, j)]).collect() },
                ],
                // many successors, with one and two components
                2 => vec![Rule { head: 0, tail: vec![1; n], comp: vec![(0..n).map(|i| S::V(i, 0)).collect()] }, leaf(1, 1)],
                3 => vec![
                    Rule {
                        head: 0,
                        tail: (0..n).map(|i| 1 + (i % 2) as u8).collect(),
                        comp: vec![(0..n).flat_map(|i| (0..=i % 2).map(move |j| S::V(i, j))).collect()],
                    },
                    leaf(1, 1),
                    leaf(2, 2),
                ],
                // many rules, one of another fan-out
                _ => (0..n)
                    .map(|i| Rule { head: i as u8, tail: vec![i as u8 + 1], comp: vec![vec![S::V(0, 0), S::T(0)]] })
                    .chain(Some(leaf(n, 1)))
                    .collect(),
            };
            if last {
                rules.rotate_left(1);
            }
            accept(&rules, 0, o)?;
            let places = |len: usize| -> Vec<usize> { (0..len).filter(|k| len < 12 || *k < 2 || k + 2 >= len || k % 16 == 0 || *k == len / 2).collect() };
            let mut try_it = |rules: Vec<Rule>, what: String| accept(&rules, 0, o).map_err(|e| format!("{}: {}", what, e));
            for r in places(rules.len()) {
                for c in places(rules[r].comp.len()) {
                    for k in places(rules[r].comp[c].len()) {
                        let what = |w: &str| format!("symbol {} of component {} of rule {} {}", k, c, r, w);
                        let edit = |f: &dyn Fn(&mut Vec<S>)| {
                            let mut rules = rules.clone();
                            f(&mut rules[r].comp[c]);
                            rules
                        };
                        try_it(edit(&|v| { v.remove(k); }), what("lost"))?;
                        try_it(edit(&|v| { let s = v[k]; v.push(s) }), what("doubled"))?;
                        try_it(edit(&|v| v[k] = S::T(0)), what("exchanged for a terminal"))?;
                        if let S::V(i, j) = rules[r].comp[c][k] {
                            for (i, j) in [(i, j + 1), (i + 1, j), (i, j.wrapping_sub(1)), (i.wrapping_sub(1), j), (i, n), (n, j), (0, 0)] {
                                if i < 1000 && j < 1000 {
                                    try_it(edit(&|v| v[k] = S::V(i, j)), what(&format!("exchanged for {} {}", i, j)))?;
                                }
                            }
                        }
                    }
                    let mut fewer = rules.clone();
                    fewer[r].comp.remove(c);
                    try_it(fewer, format!("component {} of rule {} lost", c, r))?;
                    let mut more = rules.clone();
                    more[r].comp.insert(c, vec![]);
                    try_it(more, format!("component {} of rule {} added", c, r))?;
                }
                for i in places(rules[r].tail.len()) {
                    let mut fewer = rules.clone();
                    fewer[r].tail.remove(i);
                    try_it(fewer, format!("nonterminal {} of rule {} lost", i, r))?;
                    for x in [0, 1, 2, 200] {
                        let mut other = rules.clone();
                        other[r].tail[i] = x;
                        try_it(other, format!("nonterminal {} of rule {} exchanged for {}", i, r, x))?;
                        let mut more = rules.clone();
                        more[r].tail.insert(i, x);
                        try_it(more, format!("nonterminal {} added before {} of rule {}", x, i, r))?;
                    }
                }
                let mut fewer = rules.clone();
                fewer.remove(r);
                try_it(fewer, format!("rule {} lost", r))?;
                let mut more = rules.clone();
                more.push(rules[r].clone());
                try_it(more, format!("rule {} twice", r))?;
            }
            Ok(())
        },
        |c| format!("{:?} (size, family, last rule first)", c),
    )
}

pub fn c15() -> Check {
    Check {
        id: "C15",
        assumptions: vec![],
        build: |t| {
            vec![
                rule_sets("small", wild_rules(&[vec![], vec![1]], 2, 1, 2), t.pick(3, 4)),
                rule_sets("pairs", wild_rules(&[vec![], vec![0], vec![1], vec![1, 1]], 2, t.pick(2, 3), 2), 2),
                rule_sets("unary", all_rules(&[1, 2, 0], 2, &Shape { max_terminals: 0, max_symbols: 2, ..MCFG }), t.pick(3, 3)),
                one_rule(t),
                large(t),
            ]
        },
    }
}

// ---------------------------------------------------------------------------------------------
// C16

fn to_cfg(rules: &[Rule], size: usize, obs: &mut Obs) -> Verdict {
    obs.state(rules);
    for initial in [vec![0u8], vec![], vec![1, 0], vec![0, 0]] {
        let pm = PMCFG { initial: initial.clone(), rules: rules.iter().enumerate().map(|(i, r)| to_rule(i, r)).collect::<Vec<_>>() };
        let cfg: CFG<u8, u8, usize> = catch(|| pm.into()).map_err(|p| format!("panics: {}", p))?;
        obs.step();
        if cfg.initial != initial {
            return Err(format!("initial nonterminals {:?}, not {:?}", cfg.initial, initial));
        }
        let got: Vec<(u8, Vec<LetterT<u8, u8>>, usize)> =
            cfg.rules.iter().map(|r| (r.head, r.composition.composition.clone(), r.weight)).collect();
        let e: Vec<(u8, Vec<LetterT<u8, u8>>, usize)> = rules
            .iter()
            .enumerate()
            .map(|(k, r)| {
                let c = r.comp[0]
                    .iter()
                    .map(|s| match *s {
                        S::T(t) => LetterT::Value(t),
                        S::V(i, _) => LetterT::Label(r.tail[i]),
                    })
                    .collect();
                (r.head, c, k)
            })
            .collect();
        if got != e {
            return Err(format!("the rules are {:?}, not {:?}", got, e));
        }
        // the derivations of the result, as derivations of a multiple context-free grammar
        // whose variables occur in order
        let linear = |r: &Rule| (0..r.tail.len()).all(|i| r.comp[0].iter().filter(|s| **s == S::V(i, 0)).count() == 1);
        if initial == [0] && rules.iter().all(linear) {
            let plain: Vec<Rule> = got
                .iter()
                .map(|(h, c, _)| {
                    let mut tail = Vec::new();
                    let comp = c
                        .iter()
                        .map(|l| match l {
                            LetterT::Value(t) => S::T(*t),
                            LetterT::Label(n) => {
                                tail.push(*n);
                                S::V(tail.len() - 1, 0)
                            }
                        })
                        .collect();
                    Rule { head: *h, tail, comp: vec![comp] }
                })
                .collect();
            let words = |rules: &[Rule]| {
                let mut v: Vec<(Vec<usize>, Vec<Vec<u8>>)> = start(rules, 0, size)
                    .iter()
                    .map(|d| {
                        let mut used = d.rules();
                        used.sort();
                        (used, value(rules, d))
                    })
                    .collect();
                v.sort();
                v
            };
            let (g, w) = (words(&plain), words(rules));
            if g != w {
                return Err(format!("the derivations have the weights and yields {:?}, not {:?}", g, w));
            }
            obs.steps(w.len());
            obs.outcome(&w);
            if w.len() > 1 {
                obs.nontrivial();
                obs.note(|| show(rules));
            }
        }
    }
    obs.trace();
    Ok(())
}

/// Rules with many successors.
fn many_successors(tier: Tier) -> Suite {
    let mut cases: Vec<(Vec<u8>, Vec<usize>)> = Vec::new();
    for tail in words(&[0u8, 1, 2], tier.pick(4, 5)) {
        let order: Vec<usize> = (0..tail.len()).collect();
        for p in permutations(&order) {
            cases.push((tail.clone(), p));
        }
    }
    for n in (5..=tier.pick(20, 40)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
        let tails: Vec<Vec<u8>> = vec![
            vec![1; n],
            (0..n).map(|i| (i % 3) as u8).collect(),
            (0..n).map(|i| (i % 251) as u8).collect(),
            (0..n).map(|i| (n - i) as u8).collect(),
        ];
        for tail in tails {
            for k in [0, 1, n / 2, n - 1] {
                cases.push((tail.clone(), (0..n).map(|i| (i + k) % n).collect()));
                cases.push((tail.clone(), (0..n).rev().map(|i| (i + k) % n).collect()));
            }
        }
    }
    Suite::over(
        "successors",
        "one rule with all tails of up to 4 (5) of three nonterminals in all orders, and tails of up to 20 (40) and some of up \
         to 300 rotated and reversed, among terminals or not",
        cases,
        |(tail, order), o| {
            for terminals in 0..3 {
                let mut comp = Vec::new();
                for i in order {
                    if terminals == 1 {
                        comp.push(S::T(*i as u8));
                    }
                    comp.push(S::V(*i, 0));
                }
                if terminals == 2 {
                    comp.push(S::T(0));
                }
                to_cfg(&[Rule { head: 0, tail: tail.clone(), comp: vec![comp] }], 2, o)?;
            }
            o.outcome(&(tail, order));
            if tail.len() > 2 {
                o.nontrivial();
            }
            Ok(())
        },
        |(tail, order)| format!("{:?} in the order {:?}", tail, order),
    )
}

/// Many rules, long ones among them.
fn many_rules(tier: Tier) -> Suite {
    let sizes: Vec<usize> = (1..=tier.pick(20, 60)).chain([127, 128, 129, 255, 256, 257, 300]).collect();
    Suite::over(
        "many-rules",
        "up to 20 (60) and some of up to 300 rules: of one nonterminal, of different ones, the same one again and again, \
         growing ones",
        sizes,
        |&n, o| {
            let families: Vec<Vec<Rule>> = vec![
                (0..n).map(|i| Rule { head: 0, tail: vec![], comp: vec![vec![S::T(i as u8)]] }).collect(),
                (0..n).map(|i| Rule { head: i as u8, tail: vec![(i + 1) as u8], comp: vec![vec![S::V(0, 0)]] }).collect(),
                (0..n).map(|_| Rule { head: 0, tail: vec![], comp: vec![vec![]] }).collect(),
                (0..n).map(|i| Rule { head: 0, tail: vec![1], comp: vec![vec![S::T(i as u8), S::V(0, 0), S::T(0)]] }).collect(),
                (0..n.min(100))
                    .map(|i| Rule { head: 0, tail: vec![1], comp: vec![(0..i).map(|k| S::T(k as u8)).chain(Some(S::V(0, 0))).collect()] })
                    .collect(),
            ];
            for rules in families {
                to_cfg(&rules, 2, o)?;
            }
            o.outcome(&n);
            o.nontrivial();
            Ok(())
        },
        |n| n.to_string(),
    )
}

pub fn c16() -> Check {
    Check {
        id: "C16",
        assumptions: vec!["the compositions have one component each and only use first components"],
        build: |t| {
            let sh = Shape { linear: true, nondeleting: true, ordered: false, max_terminals: 1, max_symbols: 3, terminals: 1, epsilon_free: false };
            vec![
                grammars("linear", &[1, 1], 2, sh, t.pick(3, 4), t.pick(5, 5), to_cfg),
                grammars("three", &[1, 1, 1], 2, Shape { max_terminals: 0, ..sh }, t.pick(2, 3), t.pick(5, 7), to_cfg),
                grammars("copying", &[1, 1], 2, Shape { linear: false, nondeleting: false, ..sh }, 2, 5, to_cfg),
                many_successors(t),
                many_rules(t),
                grammars("long", &[1], 4, Shape { max_symbols: 5, max_terminals: 1, ..sh }, 2, 5, to_cfg),
            ]
        },
    }
}
