//! C17, C18, C19: values of derivations, separation of terminals, NeGra export.

use crate::c14_conversions::to_comp;
use mc_common::enumerate::{digits, Choices, Sequences};
use mc_common::gram::{all_rules, compositions, derivations, show, value, Der, Rule, Shape, S};
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::grammars::pmcfg::negra::{meets_negra_criteria, noparse, to_negra, DumpMode};
use rustomata::grammars::pmcfg::{evaluate, evaluate_pos, separate_terminal_rules, to_term, Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------------------------------------
// C17: terms over compositions

/// A term: a composition and terms for its nonterminals.
#[derive(Clone, Debug, Hash)]
struct Term {
    comp: Vec<Vec<S>>,
    kids: Vec<Rc<Term>>,
}

impl Term {
    fn value(&self) -> Vec<Vec<u8>> {
        let kids: Vec<_> = self.kids.iter().map(|k| k.value()).collect();
        self.comp
            .iter()
            .map(|c| {
                let mut out = Vec::new();
                for s in c {
                    match *s {
                        S::T(t) => out.push(t),
                        S::V(i, j) => out.extend(&kids[i][j]),
                    }
                }
                out
            })
            .collect()
    }
    fn nodes(&self, at: &[usize], f: &mut dyn FnMut(&[usize], &Term)) {
        f(at, self);
        for (i, k) in self.kids.iter().enumerate() {
            let mut a = at.to_vec();
            a.push(i);
            k.nodes(&a, f);
        }
    }
}

fn plain(c: &Composition<u8>) -> Result<Vec<Vec<u8>>, String> {
    c.composition
        .iter()
        .map(|c| {
            c.iter()
                .map(|s| match s {
                    VarT::T(t) => Ok(*t),
                    VarT::Var(i, j) => Err(format!("variable {} {} in a value", i, j)),
                })
                .collect()
        })
        .collect()
}

fn eval_term(t: &Term, obs: &mut Obs) -> Verdict {
    obs.state(t);
    let mut rules: GornTree<PMCFGRule<u8, u8, usize>> = GornTree::new();
    let mut tree: GornTree<Composition<u8>> = GornTree::new();
    let mut nodes: Vec<(Vec<usize>, Term)> = Vec::new();
    t.nodes(&[], &mut |a, n| nodes.push((a.to_vec(), n.clone())));
    for (k, (a, n)) in nodes.iter().enumerate() {
        tree.insert(a.clone(), to_comp(&n.comp));
        rules.insert(
            a.clone(),
            PMCFGRule { head: k as u8, tail: (0..n.kids.len()).map(|i| i as u8).collect(), composition: to_comp(&n.comp), weight: k },
        );
    }
    let e = t.value();
    let got = plain(&catch(|| evaluate(&tree)).map_err(|p| format!("panics: {}", p))?)?;
    if got != e {
        return Err(format!("the value is {:?}, not {:?}", got, e));
    }
    for (a, n) in &nodes {
        obs.step();
        let e = n.value();
        let got = plain(&catch(|| evaluate_pos(&tree, a.clone())).map_err(|p| format!("at {:?}: panics: {}", a, p))?)?;
        if got != e {
            return Err(format!("the value at {:?} is {:?}, not {:?}", a, got, e));
        }
    }
    let (terms, heads) = to_term(&rules);
    if terms != tree {
        return Err(format!("the term is {:?}", terms));
    }
    let h: Vec<(Vec<usize>, u8)> = heads.into_iter().collect();
    let eh: Vec<(Vec<usize>, u8)> = nodes.iter().enumerate().map(|(k, (a, _))| (a.clone(), k as u8)).collect();
    if h != eh {
        return Err(format!("the nonterminals of the term are {:?}, not {:?}", h, eh));
    }
    obs.trace();
    obs.outcome(&e);
    if nodes.len() > 1 && e.iter().any(|c| c.len() > 1) {
        obs.nontrivial();
        obs.note(|| format!("{:?} has the value {:?}", t, e));
    }
    Ok(())
}

const ANY: Shape = Shape { linear: false, nondeleting: false, ordered: false, max_terminals: 1, max_symbols: 3, terminals: 1, epsilon_free: false };

/// Terms of two levels: all root compositions over children with different constant values.
fn flat(tier: Tier) -> Suite {
    let kinds: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2], vec![1, 1], vec![2, 1], vec![1, 2], vec![3], vec![0, 2], vec![1, 1, 1]];
    let mut all: Vec<(Vec<Vec<S>>, Vec<usize>)> = Vec::new();
    for f in 0..=tier.pick(2, 3) {
        for k in &kinds {
            let sh = Shape { max_symbols: tier.pick(4, 5), ..ANY };
            all.extend(compositions(f, k, &sh).into_iter().map(|c| (c, k.clone())));
        }
    }
    let build = |c: &(Vec<Vec<S>>, Vec<usize>)| -> Term {
        let mut next = 10;
        let kids = c
            .1
            .iter()
            .map(|&f| {
                Rc::new(Term {
                    comp: (0..f)
                        .map(|j| {
                            (0..(next + j as u8) % 3)
                                .map(|x| {
                                    next += 1;
                                    S::T(next + x)
                                })
                                .collect()
                        })
                        .collect(),
                    kids: vec![],
                })
            })
            .collect();
        Term { comp: c.0.clone(), kids }
    };
    Suite::over(
        "flat",
        "all compositions of at most 4 (5) symbols over given children (copying, deleting, permuting); non-trivial: there are children and a component with two symbols",
        all,
        move |c, o| eval_term(&build(c), o),
        move |c| format!("{:?} over {:?}", c.0, c.1),
    )
}

/// Terms of three levels from a menu of compositions of every kind.
fn nested(tier: Tier) -> Suite {
    let v = S::V;
    let t = S::T;
    // (fan-out, fan-outs of the children, composition)
    let menu: Vec<(usize, Vec<usize>, Vec<Vec<S>>)> = vec![
        (1, vec![], vec![vec![t(0)]]),
        (1, vec![], vec![vec![]]),
        (2, vec![], vec![vec![t(1)], vec![t(2), t(3)]]),
        (2, vec![], vec![vec![], vec![t(4)]]),
        (1, vec![1], vec![vec![t(5), v(0, 0)]]),
        (1, vec![1], vec![vec![v(0, 0), v(0, 0)]]),
        (1, vec![2], vec![vec![v(0, 1), t(6), v(0, 0)]]),
        (1, vec![2], vec![vec![v(0, 1)]]),
        (2, vec![2], vec![vec![v(0, 1)], vec![v(0, 0), t(7)]]),
        (2, vec![2], vec![vec![v(0, 0), v(0, 1)], vec![v(0, 0)]]),
        (1, vec![1, 2], vec![vec![v(1, 0), v(0, 0), v(1, 1)]]),
        (2, vec![2, 1], vec![vec![v(1, 0), v(0, 1)], vec![v(0, 0)]]),
        (2, vec![1, 2], vec![vec![v(1, 1)], vec![v(1, 0)]]),
        (1, vec![2, 2], vec![vec![v(0, 0), v(1, 0), v(0, 1), v(1, 1)]]),
    ];
    let depth = tier.pick(3, 3);
    let mut levels: Vec<Vec<Rc<Term>>> = vec![Vec::new(); 3]; // by fan-out
    for _ in 0..depth {
        let mut next: Vec<Vec<Rc<Term>>> = vec![Vec::new(); 3];
        for (f, kids, comp) in &menu {
            let sets: Vec<Vec<Rc<Term>>> = kids.iter().map(|&k| levels[k].clone()).collect();
            for ks in mc_common::enumerate::product(&sets) {
                next[*f].push(Rc::new(Term { comp: comp.clone(), kids: ks }));
            }
        }
        levels = next;
        if tier == Tier::Quick && levels.iter().map(|l| l.len()).sum::<usize>() > 60_000 {
            break;
        }
    }
    let counts: Vec<usize> = levels.iter().map(|l| l.len()).collect();
    drop(levels);
    // the terms are numbered without storing them (they share their parts, which are not `Send`)
    fn get(menu: &[(usize, Vec<usize>, Vec<Vec<S>>)], counts: &[Vec<u64>], f: usize, depth: usize, mut i: u64) -> Term {
        for (g, kids, comp) in menu {
            if *g != f {
                continue;
            }
            let n: u64 = kids.iter().map(|&k| if depth == 0 { 0 } else { counts[depth - 1][k] }).product();
            if i < n {
                let radices: Vec<u64> = kids.iter().map(|&k| counts[depth - 1][k]).collect();
                let d = digits(i, &radices);
                let ks = kids.iter().zip(d).map(|(&k, x)| Rc::new(get(menu, counts, k, depth - 1, x as u64))).collect();
                return Term { comp: comp.clone(), kids: ks };
            }
            i -= n;
        }
        unreachable!()
    }
    let mut counts_by_depth: Vec<Vec<u64>> = Vec::new();
    for d in 0..depth {
        let mut c = vec![0u64; 3];
        for (f, kids, _) in &menu {
            c[*f] += kids.iter().map(|&k| if d == 0 { 0 } else { counts_by_depth[d - 1][k] }).product::<u64>();
        }
        counts_by_depth.push(c);
    }
    let _ = counts;
    let last = counts_by_depth[depth - 1].clone();
    let total = last[1] + last[2];
    let term = move |i: u64| if i < last[1] { get(&menu, &counts_by_depth, 1, depth - 1, i) } else { get(&menu, &counts_by_depth, 2, depth - 1, i - last[1]) };
    let t2 = term.clone();
    Suite::new(
        "nested",
        "all terms of at most three levels over 14 compositions; non-trivial: there are children and a component with two symbols",
        total,
        move |i, o| eval_term(&term(i), o),
        move |i| format!("{:?}", t2(i)),
    )
}

/// Wide terms: many children, many components.
fn wide() -> Suite {
    let n = 40u64;
    let build = move |i: u64| -> Term {
        let d = digits(i, &[n, n]);
        let (kids, step) = (d[0], d[1] + 1);
        let ks: Vec<Rc<Term>> =
            (0..kids).map(|k| Rc::new(Term { comp: (0..=k % 13).map(|j| vec![S::T(k as u8), S::T(100 + j as u8)]).collect(), kids: vec![] })).collect();
        let comp = (0..kids).map(|k| { let k = k * step % kids; vec![S::V(k, k % 13), S::T(200), S::V(k, 0)] }).collect();
        Term { comp, kids: ks }
    };
    Suite::new("wide", "up to 39 children with up to 13 components in 40 orders; non-trivial: with children", n * n, move |i, o| eval_term(&build(i), o), move |i| format!("{:?} (children, step)", digits(i, &[n, n])))
}

/// Long chains: every level adds symbols, swaps, copies or drops components.
fn deep(tier: Tier) -> Suite {
    let max = tier.pick(60u64, 120);
    let (v, t) = (S::V, S::T);
    let step = move |way: u64, k: u64| -> Vec<Vec<S>> {
        let x = t((k % 200) as u8);
        match way {
            0 => vec![vec![v(0, 0), x], vec![v(0, 1)]],
            1 => vec![vec![v(0, 1)], vec![x, v(0, 0)]],
            2 => vec![vec![v(0, 0), v(1, 0)], vec![v(0, 1), v(1, 1)]],
            3 if k % 8 == 0 => vec![vec![v(0, 1), v(0, 0)], vec![v(0, 1)]],
            3 => vec![vec![v(0, 0)], vec![v(1, 1), x]],
            4 => vec![vec![v(1, 0), v(0, 0)], vec![v(0, 1), v(2, 1)]],
            _ => vec![vec![x, v(0, 0)]],
        }
    };
    let build = move |i: u64| -> Term {
        let d = digits(i, &[max, 6]);
        let leaf = |k: u64| Rc::new(Term { comp: vec![vec![t(201), t((k % 7) as u8)], vec![t(202)]], kids: vec![] });
        let mut top = leaf(0);
        for k in 0..d[0] as u64 {
            let mut kids = vec![top];
            kids.extend((0..[0, 0, 1, 1, 2, 0][d[1]]).map(|x| leaf(k + x)));
            top = Rc::new(Term { comp: step(d[1] as u64, k), kids });
        }
        (*top).clone()
    };
    Suite::new(
        "deep",
        "chains of all lengths up to 59 (119), in which each level adds symbols, swaps, copies or drops components or joins them with those of leaves; \
         non-trivial: with children",
        max * 6,
        move |i, o| eval_term(&build(i), o),
        move |i| format!("{:?} (length, way)", digits(i, &[max, 6])),
    )
    .limit(120)
}

pub fn c17() -> Check {
    Check { id: "C17", assumptions: vec!["every variable refers to an existing component of an existing child"], build: |t| vec![flat(t), nested(t), wide(), deep(t)] }
}

// ---------------------------------------------------------------------------------------------
// Derivations of all small grammars

/// Checks all derivations of nonterminal 0 of all sets of rules from a menu.
fn all_derivations(
    name: &'static str,
    rule: &'static str,
    menu: Vec<Rule>,
    k: usize,
    size: usize,
    run: impl Fn(&[Rule], &Der, &mut Obs) -> Verdict + Send + Sync + 'static,
) -> Suite {
    let menu = Arc::new(menu);
    let choices = Choices::new(menu.len(), k);
    let get = {
        let choices = choices.clone();
        move |i: u64| -> Vec<Rule> { choices.get(i).into_iter().map(|j| menu[j].clone()).collect() }
    };
    let g2 = get.clone();
    Suite::new(
        name,
        rule,
        choices.len(),
        move |i, o| {
            let rules = get(i);
            if !rules.iter().any(|r| r.head == 0) {
                return Ok(());
            }
            for d in derivations(&rules, size).remove(&0).unwrap_or_default().into_iter().flatten() {
                // each derivation is checked with the smallest set of rules only
                if d.rules().iter().collect::<BTreeSet<_>>().len() == rules.len() {
                    run(&rules, &d, o).map_err(|e| format!("derivation {}: {}", d.show(), e))?;
                }
            }
            Ok(())
        },
        move |i| show(&g2(i)),
    )
}

fn rule_tree<N, T, W>(rules: &[Rule], d: &Der, n: impl Fn(u8) -> N, t: impl Fn(u8) -> T, w: impl Fn(usize) -> W) -> GornTree<PMCFGRule<N, T, W>> {
    d.nodes()
        .into_iter()
        .map(|(a, r)| {
            let rule = &rules[r];
            (
                a,
                PMCFGRule {
                    head: n(rule.head),
                    tail: rule.tail.iter().map(|x| n(*x)).collect(),
                    composition: Composition {
                        composition: rule
                            .comp
                            .iter()
                            .map(|c| {
                                c.iter()
                                    .map(|s| match *s {
                                        S::T(x) => VarT::T(t(x)),
                                        S::V(i, j) => VarT::Var(i, j),
                                    })
                                    .collect()
                            })
                            .collect(),
                    },
                    weight: w(r),
                },
            )
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// C18

fn separate(rules: &[Rule], d: &Der, names: &dyn Fn(u8) -> String, terms: &dyn Fn(u8) -> String, obs: &mut Obs) -> Verdict {
    let tree = rule_tree(rules, d, names, terms, |r| r);
    let out = catch(|| separate_terminal_rules(&tree)).map_err(|p| format!("panics: {}", p))?;
    obs.state(&(rules, d, names(0), terms(0)));
    obs.step();
    let old_heads: BTreeSet<String> = d.nodes().iter().map(|(_, r)| names(rules[*r].head)).collect();
    let olds: BTreeMap<Vec<usize>, usize> = d.nodes().into_iter().collect();
    for (a, r) in &out {
        let syms: Vec<&VarT<String>> = r.composition.composition.iter().flatten().collect();
        let ts = syms.iter().filter(|s| matches!(s, VarT::T(_))).count();
        if ts > 0 && syms.len() > 1 {
            return Err(format!("the rule {:?} at {:?} has a terminal and other symbols", r, a));
        }
        match olds.get(a) {
            Some(&o) => {
                if r.head != names(rules[o].head) || r.weight != o {
                    return Err(format!("the rule at {:?} has the nonterminal {:?} and the weight {}", a, r.head, r.weight));
                }
                if r.composition.composition.len() != rules[o].comp.len() {
                    return Err(format!("the rule at {:?} has {} components", a, r.composition.composition.len()));
                }
                if r.tail.len() < rules[o].tail.len() || r.tail.iter().zip(&rules[o].tail).any(|(x, y)| *x != names(*y)) {
                    return Err(format!("the rule at {:?} has the right-hand side nonterminals {:?}", a, r.tail));
                }
            }
            None => {
                if ts != 1 || !r.tail.is_empty() {
                    return Err(format!("the new rule {:?} at {:?} does not read a terminal", r, a));
                }
                if old_heads.contains(&r.head) {
                    return Err(format!("the new nonterminal {:?} is one of the old ones", r.head));
                }
            }
        }
        // a derivation: each child has the right nonterminal, and there are no others
        for (i, n) in r.tail.iter().enumerate() {
            let mut c = a.clone();
            c.push(i);
            match out.get(&c) {
                Some(k) if k.head == *n => (),
                k => return Err(format!("child {:?} of {:?} is {:?}, not a rule for {:?}", c, r, k.map(|k| &k.head), n)),
            }
        }
        if !a.is_empty() {
            let (last, parent) = a.split_last().unwrap();
            if out.get(&parent.to_vec()).map_or(true, |p| p.tail.len() <= *last) {
                return Err(format!("the node at {:?} is no child", a));
            }
        }
    }
    if olds.keys().any(|a| out.get(a).is_none()) {
        return Err("a node is lost".into());
    }
    let e: Vec<Vec<String>> = value(rules, d).into_iter().map(|c| c.into_iter().map(terms).collect()).collect();
    let got: Vec<Vec<String>> = catch(|| evaluate(&to_term(&out).0))
        .map_err(|p| format!("the result has no value: {}", p))?
        .composition
        .into_iter()
        .map(|c| c.into_iter().map(|s| if let VarT::T(t) = s { t } else { "?".into() }).collect())
        .collect();
    if got != e {
        return Err(format!("the result has the value {:?}, not {:?}", got, e));
    }
    obs.trace();
    obs.outcome(&((&out).into_iter().count(), &e));
    if (&out).into_iter().count() > olds.len() {
        obs.nontrivial();
        obs.note(|| format!("{} of {} gets {} nodes", d.show(), show(rules), (&out).into_iter().count()));
    }
    Ok(())
}

fn c18_suites(tier: Tier) -> Vec<Suite> {
    let run = |rules: &[Rule], d: &Der, o: &mut Obs| {
        // terminals that look like nonterminals, and like each other
        let n1 = |n: u8| ["S", "A", "B"][n as usize].to_string();
        let n2 = |n: u8| ["a", "aa", "b"][n as usize].to_string();
        let n3 = |n: u8| ["a", "b", "bbb"][n as usize].to_string();
        let t1 = |t: u8| ["a", "b", "c"][t as usize].to_string();
        separate(rules, d, &n1, &t1, o)?;
        separate(rules, d, &n2, &t1, o)?;
        separate(rules, d, &n3, &t1, o)
    };
    let rule = "all derivations of all sets of at most k rules up to a number of nodes, with three choices of names; non-trivial: nodes are added";
    let any = Shape { linear: false, nondeleting: false, ordered: false, max_terminals: 3, max_symbols: 3, terminals: 2, epsilon_free: false };
    vec![
        all_derivations("one-rule", rule, {
            // a single node of any form
            let mut m: Vec<Rule> = Vec::new();
            for f in 0..=tier.pick(2, 3) {
                for c in compositions(f, &[], &Shape { max_terminals: tier.pick(5, 6), max_symbols: tier.pick(5, 6), terminals: 3, ..any }) {
                    m.push(Rule { head: 0, tail: vec![], comp: c });
                }
            }
            m
        }, 1, 1, run),
        all_derivations("one-two", rule, all_rules(&[1, 2], 1, &any), 2, tier.pick(3, 4), run),
        all_derivations("binary", rule, all_rules(&[1, 1], 2, &Shape { max_terminals: 2, terminals: 1, ..any }), 2, tier.pick(4, 5), run),
        all_derivations("three", rule, all_rules(&[1, 1, 1], 2, &Shape { max_symbols: 2, max_terminals: 1, terminals: tier.pick(1, 2), ..any }), 3, 4, run),
        separate_many(tier),
        separate_deep(tier),
    ]
}

/// Rules with many terminals and children, and terminals whose new names collide many times.
fn separate_many(tier: Tier) -> Suite {
    let n = tier.pick(14u64, 30);
    let radices = vec![n, n, 3, 3, 4];
    let get = {
        let radices = radices.clone();
        move |i: u64| -> (Vec<Rule>, Der, usize, usize) {
            let d = digits(i, &radices);
            let (kids, terms, repeat, order, names) = (d[0], d[1], d[2] + 1, d[3], d[4]);
            let vars: Vec<S> = (0..kids).map(|k| S::V(k, 0)).collect();
            let ts: Vec<S> = (0..terms * repeat).map(|x| S::T((x % terms) as u8)).collect();
            let comp = match order {
                0 => vec![[vars, ts].concat()],
                1 => vec![[ts, vars].concat()],
                _ => {
                    let mut c = Vec::new();
                    for x in 0..kids.max(terms * repeat) {
                        c.extend(ts.get(x));
                        c.extend(vars.get(x));
                    }
                    let half = c.len() / 2;
                    let rest = c.split_off(half);
                    vec![c, vec![], rest]
                }
            };
            let mut rules = vec![Rule { head: 0, tail: (0..kids).map(|k| k as u8 + 1).collect(), comp }];
            // every other child reads two terminals, the others one
            rules.extend((0..kids).map(|k| {
                let t = S::T(k as u8);
                Rule { head: k as u8 + 1, tail: vec![], comp: vec![if k % 2 == 0 { vec![t] } else { vec![t, S::T(0)] }] }
            }));
            let kids = (1..=kids).map(|r| Rc::new(Der { rule: r, kids: vec![] })).collect();
            (rules, Der { rule: 0, kids }, names, terms)
        }
    };
    let g2 = get.clone();
    Suite::new(
        "many",
        "rules with up to 13 (29) children and as many terminals, each up to three times, before, after or between the variables, with four choices of names \
         (all distinct; the terminals are the nonterminals; names are repetitions of one symbol; only the longest repetitions are taken); non-trivial: nodes are added",
        radices.iter().product(),
        move |i, o| {
            let (rules, d, names, _) = get(i);
            let long = |n: u8| "a".repeat(n as usize + 1);
            match names {
                0 => separate(&rules, &d, &|n| format!("N{}", n), &|t| format!("t{}", t), o),
                1 => separate(&rules, &d, &|n| format!("x{}", n), &|t| format!("x{}", t), o),
                2 => separate(&rules, &d, &long, &long, o),
                _ => separate(&rules, &d, &|n| "a".repeat(2 * n as usize + 2), &long, o),
            }
        },
        move |i| format!("names {}: {}", g2(i).2, show(&g2(i).0)),
    )
}

/// Long chains in which every rule has terminals.
fn separate_deep(tier: Tier) -> Suite {
    let n = tier.pick(40u64, 120);
    let build = |i: u64, n: u64| -> (Vec<Rule>, Der) {
        let d = digits(i, &[n, 3]);
        let (v, t) = (S::V, S::T);
        let rules = vec![
            Rule { head: 0, tail: vec![1], comp: vec![vec![t(0), v(0, 0), t(1), v(0, 1)]] },
            Rule { head: 1, tail: vec![1], comp: vec![vec![t(0), v(0, 0), t(1)], vec![t(2), v(0, 1)]] },
            Rule { head: 1, tail: vec![2, 1], comp: vec![vec![v(0, 0), v(1, 1)], vec![v(1, 0)]] },
            Rule { head: 1, tail: vec![], comp: vec![vec![], vec![t(2)]] },
            Rule { head: 2, tail: vec![], comp: vec![vec![t(1)]] },
        ];
        let leaf = |r: usize| Rc::new(Der { rule: r, kids: vec![] });
        let mut x = leaf(3);
        for k in 0..d[0] {
            x = match d[1] {
                0 => Rc::new(Der { rule: 1, kids: vec![x] }),
                1 if k % 2 == 0 => Rc::new(Der { rule: 1, kids: vec![x] }),
                _ => Rc::new(Der { rule: 2, kids: vec![leaf(4), x] }),
            };
        }
        (rules, Der { rule: 0, kids: vec![x] })
    };
    Suite::new(
        "deep",
        "chains of all lengths up to 39 (119) of rules with terminals, without, and of both in turns; non-trivial: nodes are added",
        n * 3,
        move |i, o| {
            let (rules, d) = build(i, n);
            separate(&rules, &d, &|n| ["S", "A", "B"][n as usize].to_string(), &|t| ["a", "A", "AA"][t as usize].to_string(), o)
        },
        move |i| format!("{:?} (length, way)", digits(i, &[n, 3])),
    )
}

pub fn c18() -> Check {
    Check { id: "C18", assumptions: vec!["symbols are not empty strings (a new name is made by repeating the terminal)"], build: c18_suites }
}

// ---------------------------------------------------------------------------------------------
// C19

/// The lines of an export, as (first column, second column, last column).
fn lines(text: &str, id: usize) -> Result<Vec<(String, String, usize)>, String> {
    let ls: Vec<&str> = text.split('\n').collect();
    if ls.len() < 2 || ls[0] != format!("#BOS {}", id) || ls[ls.len() - 1] != format!("#EOS {}", id) {
        return Err(format!("not framed: {:?}", text));
    }
    ls[1..ls.len() - 1]
        .iter()
        .map(|l| {
            let c: Vec<&str> = l.split('\t').collect();
            if c.len() != 5 || c[2] != "--" || c[3] != "--" {
                return Err(format!("line {:?}", l));
            }
            Ok((c[0].to_string(), c[1].to_string(), c[4].parse().map_err(|_| format!("line {:?}", l))?))
        })
        .collect()
}

fn normal(r: &Rule) -> bool {
    let syms: Vec<&S> = r.comp.iter().flatten().collect();
    syms.iter().all(|s| matches!(s, S::V(..))) || (syms.len() == 1)
}

/// Where each token of the value comes from.
fn origins(rules: &[Rule], d: &Der, at: &[usize]) -> Vec<Vec<(Vec<usize>, u8)>> {
    let kids: Vec<_> = d
        .kids
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let mut a = at.to_vec();
            a.push(i);
            origins(rules, k, &a)
        })
        .collect();
    rules[d.rule]
        .comp
        .iter()
        .map(|c| {
            c.iter()
                .flat_map(|s| match *s {
                    S::T(t) => vec![(at.to_vec(), t)],
                    S::V(i, j) => kids[i][j].clone(),
                })
                .collect()
        })
        .collect()
}

fn export(rules: &[Rule], d: &Der, obs: &mut Obs) -> Verdict {
    let nt = |n: u8| format!("N{}", n);
    let t = |t: u8| ["a", "b"][t as usize].to_string();
    let tree = rule_tree(rules, d, nt, t, |r| r);
    obs.state(&(rules, d));
    let fits = d.rules().iter().all(|&r| normal(&rules[r]));
    if catch(|| meets_negra_criteria(&tree)) != Ok(fits) {
        return Err(format!("meets the criteria: {}, not {}", !fits, fits));
    }
    obs.step();
    if !fits || !rules[d.rule].comp.iter().flatten().all(|s| matches!(s, S::V(..))) {
        return Ok(());
    }
    let tokens: Vec<(Vec<usize>, u8)> = origins(rules, d, &[]).into_iter().flatten().collect();
    let names: BTreeMap<Vec<usize>, String> = d.nodes().into_iter().map(|(a, r)| (a, nt(rules[r].head))).collect();
    // inner nodes that dominate a token
    let mut inner: BTreeSet<Vec<usize>> = BTreeSet::new();
    for (a, _) in &tokens {
        for k in 1..a.len() {
            inner.insert(a[..k].to_vec());
        }
    }
    let words: Vec<String> = (0..tokens.len()).map(|i| format!("w{}", i)).collect();
    for (id, mode) in [(7, DumpMode::Default), (0, DumpMode::FromPos(words.clone()))] {
        obs.step();
        let from_pos = matches!(mode, DumpMode::FromPos(_));
        let text = catch(|| to_negra(&tree, id, mode)).map_err(|p| format!("panics: {}", p))?;
        let ls = lines(&text, id)?;
        if ls.len() != tokens.len() + inner.len() {
            return Err(format!("{} lines, but {} tokens and {} inner nodes: {:?}", ls.len(), tokens.len(), inner.len(), text));
        }
        let (ts, is) = ls.split_at(tokens.len());
        let mut table: BTreeMap<usize, (&String, usize)> = BTreeMap::new();
        for (n, name, parent) in is {
            let k: usize = n.strip_prefix('#').and_then(|n| n.parse().ok()).ok_or(format!("inner node {:?}", n))?;
            if k < 500 || table.insert(k, (name, *parent)).is_some() {
                return Err(format!("the number {} is too small or used twice: {:?}", k, text));
            }
        }
        let mut where_: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (k, ((word, tag, parent), (at, term))) in ts.iter().zip(&tokens).enumerate() {
            let w = if from_pos { words[k].clone() } else { t(*term) };
            if *word != w || *tag != names[at] {
                return Err(format!("token {} is {:?} {:?}, not {:?} {:?}", k, word, tag, w, names[at]));
            }
            let mut up = *parent;
            let mut a = at.clone();
            loop {
                a.pop();
                if a.is_empty() {
                    if up != 0 {
                        return Err(format!("token {}: node {} instead of the root: {:?}", k, up, text));
                    }
                    break;
                }
                let (name, next) = *table.get(&up).ok_or(format!("token {}: there is no node {}: {:?}", k, up, text))?;
                if *name != names[&a] {
                    return Err(format!("token {}: node {} is named {}, not {}: {:?}", k, up, name, names[&a], text));
                }
                if *where_.entry(up).or_insert_with(|| a.clone()) != a {
                    return Err(format!("node {} stands for two nodes: {:?}", up, text));
                }
                up = next;
            }
        }
        if where_.len() != inner.len() || where_.values().cloned().collect::<BTreeSet<_>>() != inner {
            return Err(format!("the nodes are {:?}, not {:?}", where_, inner));
        }
        if table.len() != inner.len() {
            return Err(format!("there are {} inner nodes", table.len()));
        }
    }
    obs.trace();
    obs.outcome(&(&tokens, &names));
    let sorted = tokens.windows(2).all(|w| w[0].0 < w[1].0);
    if !sorted {
        obs.nontrivial();
        obs.note(|| format!("{} of {}", d.show(), show(rules)));
    }
    Ok(())
}

fn no_parse(tier: Tier) -> Suite {
    let seq = Sequences::new(3, tier.pick(6, 9));
    let words = ["a", "b c", "%"];
    let get = move |i: u64| -> Vec<String> { seq.get(i).into_iter().map(|l| words[l].to_string()).collect() };
    Suite::new(
        "no-parse",
        "all sentences of at most 6 (9) words over three words; non-trivial: at least two words",
        seq.len(),
        move |i, o| {
            let s = get(i);
            let id = i as usize;
            // with `FromPos`, the sentence consists of tags, and the words come from the mode
            let ws: Vec<String> = (0..s.len()).map(|k| format!("W{}", k)).collect();
            for with_pos in [false, true] {
                let text = noparse(&s, id, if with_pos { DumpMode::FromPos(ws.clone()) } else { DumpMode::Default });
                let ls = lines(&text, id)?;
                let mut e: Vec<(String, String, usize)> =
                    s.iter().enumerate().map(|(k, w)| if with_pos { (ws[k].clone(), w.clone(), 500) } else { (w.clone(), "--".into(), 500) }).collect();
                e.push(("#500".into(), "NOPARSE".into(), 0));
                if ls != e {
                    return Err(format!("{:?}", text));
                }
                o.step();
            }
            o.state(&s);
            o.trace();
            o.outcome(&s.len());
            if s.len() > 1 {
                o.nontrivial();
                o.note(|| s.join(" "));
            }
            Ok(())
        },
        move |i| format!("{:?}", seq.get(i)),
    )
}

/// Balanced and one-sided derivations of many nodes.
fn large(tier: Tier) -> Suite {
    let rules: Vec<Rule> = vec![
        Rule { head: 0, tail: vec![1, 2], comp: vec![vec![S::V(0, 0), S::V(1, 0), S::V(0, 1), S::V(1, 1)]] },
        Rule { head: 1, tail: vec![1, 3], comp: vec![vec![S::V(1, 0), S::V(0, 0)], vec![S::V(0, 1)]] },
        Rule { head: 1, tail: vec![3, 3], comp: vec![vec![S::V(1, 0)], vec![S::V(0, 0)]] },
        Rule { head: 2, tail: vec![2, 3], comp: vec![vec![S::V(0, 1)], vec![S::V(1, 0), S::V(0, 0)]] },
        Rule { head: 2, tail: vec![3, 4], comp: vec![vec![S::V(1, 0)], vec![S::V(0, 0)]] },
        Rule { head: 3, tail: vec![], comp: vec![vec![S::T(0)]] },
        Rule { head: 4, tail: vec![], comp: vec![vec![S::T(1)]] },
    ];
    let n = tier.pick(24u64, 80);
    let build = |i: u64, n: u64| -> Der {
        let d = digits(i, &[n, n]);
        let leaf = |r: usize| Rc::new(Der { rule: r, kids: vec![] });
        let mut a = Rc::new(Der { rule: 2, kids: vec![leaf(5), leaf(5)] });
        for _ in 0..d[0] {
            a = Rc::new(Der { rule: 1, kids: vec![a, leaf(5)] });
        }
        let mut b = Rc::new(Der { rule: 4, kids: vec![leaf(5), leaf(6)] });
        for _ in 0..d[1] {
            b = Rc::new(Der { rule: 3, kids: vec![b, leaf(5)] });
        }
        Der { rule: 0, kids: vec![a, b] }
    };
    Suite::new(
        "large",
        "derivations of two crossing chains of all lengths up to 23 (79); non-trivial: discontinuous",
        n * n,
        move |i, o| export(&rules, &build(i, n), o),
        move |i| format!("{:?} (lengths of the chains)", digits(i, &[n, n])),
    )
}

/// All ordered trees up to a number of nodes, every node with a nonterminal of its own, and
/// three ways to put the yields of children together.
fn shapes(tier: Tier) -> Suite {
    // number of trees and of sequences of trees with n nodes
    let max = tier.pick(12usize, 14);
    let mut forests = vec![1u64];
    for n in 1..=max {
        let f = (1..=n).map(|k| forests[k - 1] * forests[n - k]).sum();
        forests.push(f);
    }
    // the number of trees with n nodes is that of sequences with n - 1
    let mut total = 0;
    let mut offsets = Vec::new();
    for n in 2..=max {
        offsets.push((total, n));
        total += forests[n - 1];
    }
    fn forest(forests: &[u64], n: usize, mut i: u64, next: &mut usize) -> Vec<Der> {
        if n == 0 {
            return vec![];
        }
        for k in 1..=n {
            let c = forests[k - 1] * forests[n - k];
            if i < c {
                let rule = *next;
                *next += 1;
                let kids = forest(forests, k - 1, i / forests[n - k], next);
                let mut v = vec![Der { rule, kids: kids.into_iter().map(Rc::new).collect() }];
                v.extend(forest(forests, n - k, i % forests[n - k], next));
                return v;
            }
            i -= c;
        }
        unreachable!()
    }
    fn rules(d: &Der, way: u64, at_root: bool, out: &mut BTreeMap<usize, Rule>) {
        let tail: Vec<u8> = d.kids.iter().map(|k| k.rule as u8).collect();
        let n = d.kids.len();
        let comp = if n == 0 {
            vec![vec![S::T((d.rule % 2) as u8)]]
        } else {
            match way {
                0 => vec![(0..n).map(|i| S::V(i, 0)).collect()],
                1 => vec![(0..n).rev().map(|i| S::V(i, 0)).collect()],
                _ => {
                    // the last child comes second, and the second parts of the others
                    let mut first: Vec<S> = (0..n).filter(|i| n == 1 || i + 1 < n).map(|i| S::V(i, 0)).collect();
                    let mut second: Vec<S> = if n > 1 { vec![S::V(n - 1, 0)] } else { vec![] };
                    second.extend((0..n).filter(|i| !d.kids[*i].kids.is_empty()).map(|i| S::V(i, 1)));
                    if at_root {
                        first.extend(second);
                        vec![first]
                    } else {
                        vec![first, second]
                    }
                }
            }
        };
        out.insert(d.rule, Rule { head: d.rule as u8, tail, comp });
        for k in &d.kids {
            rules(k, way, false, out);
        }
    }
    let get = move |i: u64| -> (Vec<Rule>, Der) {
        let (way, i) = (i % 3, i / 3);
        let &(start, n) = offsets.iter().rev().find(|o| o.0 <= i).unwrap();
        let mut next = 1;
        let kids = forest(&forests, n - 1, i - start, &mut next);
        let d = Der { rule: 0, kids: kids.into_iter().map(Rc::new).collect() };
        let mut r = BTreeMap::new();
        rules(&d, way, true, &mut r);
        (r.into_values().collect(), d)
    };
    let g2 = get.clone();
    Suite::new(
        "shapes",
        "all ordered trees of at most 12 (14) nodes with three ways to put yields together (in order, reversed, discontinuous); non-trivial: discontinuous or permuted",
        total * 3,
        move |i, o| {
            let (r, d) = get(i);
            export(&r, &d, o)
        },
        move |i| {
            let (r, d) = g2(i);
            format!("{} of {}", d.show(), show(&r))
        },
    )
}

/// Whether a single rule, as the root or below another one, is one that can be exported.
fn criteria(tier: Tier) -> Suite {
    let mut all: Vec<Rule> = Vec::new();
    for f in 0..=3 {
        for k in [vec![], vec![1], vec![2], vec![1, 1]] {
            let sh = Shape { linear: false, nondeleting: false, ordered: false, max_terminals: 3, max_symbols: tier.pick(3, 4), terminals: 2, epsilon_free: false };
            all.extend(compositions(f, &k, &sh).into_iter().map(|comp| Rule { head: 0, tail: vec![1; k.len()], comp }));
        }
    }
    Suite::over(
        "criteria",
        "all rules with up to 3 components and 3 (4) symbols, as a root or below one to three other nodes; non-trivial: terminals and more than one symbol",
        all,
        move |r, o| {
            let fits = normal(r);
            for at in [vec![], vec![0], vec![1], vec![0, 0], vec![2, 1, 0]] {
                let mut t: GornTree<PMCFGRule<String, String, usize>> = GornTree::new();
                let var = |comp: Vec<Vec<VarT<String>>>| PMCFGRule { head: "X".to_string(), tail: vec!["Y".to_string(); 3], composition: comp.into(), weight: 0 };
                for k in 0..at.len() {
                    t.insert(at[..k].to_vec(), var(vec![(0..3).map(|i| VarT::Var(i, 0)).collect()]));
                    let mut next = at[..k].to_vec();
                    next.push(3);
                    t.insert(next, var(vec![vec![VarT::T("x".to_string())]]));
                }
                let comp: Vec<Vec<VarT<String>>> = r.comp.iter().map(|c| c.iter().map(|s| match *s { S::T(t) => VarT::T(t.to_string()), S::V(i, j) => VarT::Var(i, j) }).collect()).collect();
                t.insert(at.clone(), var(comp));
                if catch(|| meets_negra_criteria(&t)) != Ok(fits) {
                    return Err(format!("at {:?}: meets the criteria: {}, not {}", at, !fits, fits));
                }
                o.step();
            }
            o.state(r);
            o.trace();
            o.outcome(&(fits, r.comp.len()));
            if r.comp.iter().flatten().count() > 1 && r.comp.iter().flatten().any(|s| matches!(s, S::T(_))) {
                o.nontrivial();
                o.note(|| show(&[r.clone()]));
            }
            Ok(())
        },
        move |r| show(&[r.clone()]),
    )
}

fn c19_suites(tier: Tier) -> Vec<Suite> {
    let rule = "all derivations (of rules in normal form: exported; of others: refused) of all sets of at most k rules up to a number of nodes; non-trivial: discontinuous or permuted";
    let sh = Shape { linear: true, nondeleting: true, ordered: false, max_terminals: 0, max_symbols: 4, terminals: 2, epsilon_free: false };
    let with_leaves = |mut m: Vec<Rule>, preterminals: &[u8]| -> Vec<Rule> {
        for &p in preterminals {
            for t in 0..2 {
                m.push(Rule { head: p, tail: vec![], comp: vec![vec![S::T(t)]] });
            }
        }
        m
    };
    // S: 1, A: 2, P: preterminal
    let disc = with_leaves(
        all_rules(&[1, 2, 1], 2, &sh).into_iter().filter(|r| r.head < 2 && !r.tail.contains(&0)).collect(),
        &[2],
    );
    let cont = with_leaves(
        all_rules(&[1, 1, 1], 2, &sh).into_iter().filter(|r| r.head < 2).collect(),
        &[2],
    );
    let deleting = with_leaves(
        all_rules(&[1, 2, 1], 2, &Shape { nondeleting: false, max_symbols: 2, ..sh }).into_iter().filter(|r| r.head < 2 && !r.tail.contains(&0)).collect(),
        &[2],
    );
    let mixed = with_leaves(all_rules(&[1, 1, 1], 2, &Shape { max_terminals: 2, max_symbols: 3, nondeleting: true, ..sh }).into_iter().filter(|r| r.head == 0).collect(), &[1, 2]);
    let mut suites = vec![
        all_derivations("discontinuous", rule, disc.clone(), 3, tier.pick(9, 9), export),
        all_derivations("continuous", rule, cont, tier.pick(4, 4), tier.pick(6, 8), export),
        all_derivations("deleting", rule, deleting, 3, tier.pick(5, 7), export),
        all_derivations("mixed", rule, mixed, 2, 4, export),
        large(tier),
        shapes(tier),
        criteria(tier),
        no_parse(tier),
    ];
    if tier == Tier::Thorough {
        suites.push(all_derivations("discontinuous-four", rule, disc, 4, 8, export));
    }
    suites
}

pub fn c19() -> Check {
    Check {
        id: "C19",
        assumptions: vec!["derivations are linear, and their root is not itself a preterminal (these are refused)"],
        build: c19_suites,
    }
}
