//! Rules and grammars as values: equality, hashing, order, renaming, and the wrappers around lists of rules.

use crate::c14_conversions::{to_comp, to_rule};
use mc_common::enumerate::{subsets, words, Sequences};
use mc_common::gram::{all_rules, Rule, Shape, S};
use mc_common::{catch, hash_of, Check, Obs, Suite, Tier, Verdict};
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::mcfg::Mcfg;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::sync::Arc;

type R = PMCFGRule<u8, u8, i8>;
type C = CFGRule<u8, u8, i8>;

/// `same`: do they do the same, whatever their weights are?
fn pair<T: Eq + Hash + Ord + Debug + Clone>(a: &T, b: &T, same: bool, weights: Ordering) -> Verdict {
    if (a == b) != same || (a != b) == same {
        return Err(format!("equal to {:?}: {}", b, a == b));
    }
    if same && hash_of(a) != hash_of(b) {
        return Err(format!("equal to {:?}, but the hash values differ", b));
    }
    let c = a.cmp(b);
    if b.cmp(a) != c.reverse() || a.partial_cmp(b) != Some(c) {
        return Err(format!("compared with {:?}: {:?}, conversely {:?}, partially {:?}", b, c, b.cmp(a), a.partial_cmp(b)));
    }
    if same && c != weights && c != Ordering::Equal {
        return Err(format!("compared with {:?}: {:?}, but only the weights differ", b, c));
    }
    if !same && c == Ordering::Equal {
        return Err(format!("compared with {:?}: {:?}", b, c));
    }
    Ok(())
}

/// As keys of sets and maps, rules that do the same are one.
fn keys<T: Eq + Hash + Clone>(a: &T, b: &T, same: bool) -> Verdict {
    let set: HashSet<T> = [a.clone(), b.clone()].iter().cloned().collect();
    let mut map = HashMap::new();
    *map.entry(a.clone()).or_insert(0) += 1;
    *map.entry(b.clone()).or_insert(0) += 1;
    if (set.len() == 1) != same || map[a] != if same { 2 } else { 1 } {
        return Err(format!("a set of both has {} elements, a map counts {}", set.len(), map[a]));
    }
    Ok(())
}

const WEIGHTS: [i8; 3] = [0, -1, 1];

/// All compositions of some components over some symbols.
fn compositions(letters: &[S], max: u32, fanout: usize) -> Vec<Vec<Vec<S>>> {
    let seq = Sequences::new(letters.len(), max);
    let mut out: Vec<Vec<Vec<S>>> = vec![vec![]];
    for i in 0..seq.len() {
        let s: Vec<S> = seq.get(i).into_iter().map(|l| letters[l]).collect();
        for cut in 0..=s.len() {
            if fanout > 1 {
                out.push(vec![s[..cut].to_vec(), s[cut..].to_vec()]);
            }
            if fanout > 2 {
                for k in cut..=s.len() {
                    out.push(vec![s[..cut].to_vec(), s[cut..k].to_vec(), s[k..].to_vec()]);
                }
            }
        }
        out.push(vec![s]);
    }
    out
}

fn menu(tier: Tier) -> Vec<Rule> {
    let letters = [S::T(0), S::T(1), S::V(0, 0), S::V(0, 1), S::V(1, 0)];
    let mut out = Vec::new();
    for head in 0..2 {
        for tail in words(&[0u8, 1], 2) {
            for comp in compositions(&letters, tier.pick(2, 3), tier.pick(3, 2)) {
                out.push(Rule { head, tail: tail.clone(), comp });
            }
        }
    }
    out
}

fn pmcfg_rules(tier: Tier) -> Suite {
    let rules = menu(tier);
    let real: Vec<R> = rules.iter().map(|r| weighted(r, 0)).collect();
    let all = Arc::new((rules.clone(), real));
    Suite::over(
        "pmcfg-rules",
        "all pairs of rules with 2 heads, tails of at most 2 and all compositions of up to 3 (2) components and 2 (3) symbols, \
         one case for each first one: equal iff head, tail and composition are; the same with other weights",
        rules,
        move |r, o| {
            let mut less = 0;
            for (w, weight) in WEIGHTS.iter().enumerate() {
                let a = weighted(r, *weight);
                for (p, b) in all.0.iter().zip(&all.1) {
                    let same = r == p;
                    pair(&a, b, same, weight.cmp(&0))?;
                    if w == 0 {
                        less += (*b < a) as usize;
                    }
                    o.step();
                }
                for v in &WEIGHTS {
                    let b = weighted(r, *v);
                    pair(&a, &b, true, weight.cmp(v))?;
                    keys(&a, &b, true)?;
                }
            }
            o.state(r);
            o.outcome(&less);
            o.trace();
            if !r.tail.is_empty() && r.comp.iter().any(|c| !c.is_empty()) {
                o.nontrivial();
            }
            Ok(())
        },
        |r| r.show(),
    )
}

fn weighted(r: &Rule, weight: i8) -> R {
    PMCFGRule { head: r.head, tail: r.tail.clone(), composition: to_comp(&r.comp), weight }
}

fn cfg_rules(tier: Tier) -> Suite {
    let letters: Vec<LetterT<u8, u8>> = vec![LetterT::Value(0), LetterT::Value(1), LetterT::Label(0), LetterT::Label(1)];
    let mut plain = Vec::new();
    for head in 0..3u8 {
        for w in words(&[0usize, 1, 2, 3], tier.pick(4, 5)) {
            plain.push((head, w));
        }
    }
    let make = move |r: &(u8, Vec<usize>), weight: i8| -> C {
        CFGRule {
            head: r.0,
            composition: CFGComposition::from(r.1.iter().map(|l| letters[*l].clone()).collect::<Vec<_>>()),
            weight,
        }
    };
    let real: Vec<C> = plain.iter().map(|r| make(r, 0)).collect();
    let all = Arc::new((plain.clone(), real));
    Suite::over(
        "cfg-rules",
        "all pairs of context-free rules with 3 heads and up to 4 (5) symbols on the right, one case for each first one: equal \
         iff both sides are; the same with other weights",
        plain,
        move |r, o| {
            let mut less = 0;
            for weight in &WEIGHTS {
                let a = make(r, *weight);
                for (p, b) in all.0.iter().zip(&all.1) {
                    pair(&a, b, r == p, weight.cmp(&0))?;
                    less += (*b < a) as usize;
                    o.step();
                }
                for v in &WEIGHTS {
                    let b = make(r, *v);
                    pair(&a, &b, true, weight.cmp(v))?;
                    keys(&a, &b, true)?;
                }
            }
            o.state(r);
            o.outcome(&less);
            o.trace();
            if r.1.len() > 1 {
                o.nontrivial();
            }
            Ok(())
        },
        |r| format!("{:?}", r),
    )
}

/// Lists of rules: two grammars are equal iff they have the same lists.
fn grammars(tier: Tier) -> Suite {
    let rules = vec![
        Rule { head: 0, tail: vec![], comp: vec![vec![S::T(0)]] },
        Rule { head: 0, tail: vec![0], comp: vec![vec![S::V(0, 0)]] },
        Rule { head: 1, tail: vec![], comp: vec![vec![S::T(0)]] },
    ];
    let lists: Vec<(Vec<usize>, Vec<u8>)> = words(&[0usize, 1, 2], tier.pick(3, 4))
        .into_iter()
        .flat_map(|w| words(&[0u8, 1], 2).into_iter().map(move |i| (w.clone(), i)))
        .collect();
    let copy = lists.clone();
    Suite::over(
        "grammars",
        "all pairs of grammars of up to 3 (4) of three rules with up to two initial nonterminals, one case for each first one: \
         equal iff they list the same, whatever the weights; as PMCFG and as CFG",
        lists,
        move |a, o| {
            let pm = |g: &(Vec<usize>, Vec<u8>), w: i8| PMCFG {
                initial: g.1.clone(),
                rules: g.0.iter().map(|r| weighted(&rules[*r], w)).collect::<Vec<_>>(),
            };
            let cf = |g: &(Vec<usize>, Vec<u8>), weight: i8| CFG {
                initial: g.1.clone(),
                rules: g
                    .0
                    .iter()
                    .map(|r| CFGRule {
                        head: rules[*r].head,
                        composition: CFGComposition::from(vec![if *r == 1 { LetterT::Label(0u8) } else { LetterT::Value(0u8) }]),
                        weight,
                    })
                    .collect::<Vec<_>>(),
            };
            for b in &copy {
                for w in &WEIGHTS {
                    if (pm(a, 0) == pm(b, *w)) != (a == b) || (cf(a, 0) == cf(b, *w)) != (a == b) {
                        return Err(format!("equal to {:?}: {} and {}", b, pm(a, 0) == pm(b, *w), cf(a, 0) == cf(b, *w)));
                    }
                    o.step();
                }
            }
            o.state(a);
            o.trace();
            o.outcome(&(a.0.len(), a.1.len()));
            if a.0.len() > 1 {
                o.nontrivial();
            }
            Ok(())
        },
        |a| format!("{:?}", a),
    )
}

/// Other names for the nonterminals.
fn renaming(tier: Tier) -> Suite {
    let mut rules = menu(tier);
    for n in 3..=tier.pick(5, 7) {
        for tail in words(&[0u8, 1], n).into_iter().filter(|t| t.len() == n as usize) {
            rules.push(Rule { head: 1, comp: vec![(0..n as usize).map(|i| S::V(i, 0)).collect(), vec![S::T(0)]], tail });
        }
    }
    Suite::over(
        "renaming",
        "the rules of pmcfg-rules and rules with all tails of up to 5 (7), under all mappings of the two nonterminals to three \
         names: each is replaced where it stands, all else stays",
        rules,
        |r, o| {
            for x in 0..3usize {
                for y in 0..3usize {
                    for w in &WEIGHTS {
                        let names = ["p", "q", "r"];
                        let f = |n: &u8| names[if *n == 0 { x } else { y }];
                        let m = catch(|| weighted(r, *w).map_nonterminals(f)).map_err(|p| format!("panics: {}", p))?;
                        let tail: Vec<&str> = r.tail.iter().map(f).collect();
                        if m.head != f(&r.head) || m.tail != tail || m.composition != to_comp(&r.comp) || m.weight != *w {
                            return Err(format!("0 to {}, 1 to {}: {:?}", names[x], names[y], m));
                        }
                        o.step();
                    }
                }
            }
            o.state(r);
            o.trace();
            o.outcome(&(r.head, &r.tail));
            if !r.tail.is_empty() {
                o.nontrivial();
            }
            Ok(())
        },
        |r| r.show(),
    )
}

fn wrapped(rules: &[Rule], init: u8, o: &mut Obs) -> Verdict {
    let real: Vec<_> = rules.iter().enumerate().map(|(i, r)| to_rule(i, r)).collect();
    // weights do not count for `==`
    let same = |out: &[PMCFGRule<u8, u8, usize>]| {
        out.len() == real.len()
            && out
                .iter()
                .zip(&real)
                .all(|(a, b)| a.head == b.head && a.tail == b.tail && a.composition == b.composition && a.weight == b.weight)
    };
    let m = Mcfg::new(real.clone(), init);
    let pm: PMCFG<u8, u8, usize> = m.clone().into();
    if !same(&pm.rules) || pm.initial != vec![init] {
        return Err(format!("as PMCFG: {:?}", pm));
    }
    let (out, i) = m.destruct();
    if !same(&out) || i != init {
        return Err(format!("as MCFG: {:?}, {}", out, i));
    }
    if let Some(l) = Lcfrs::new(real.clone(), init) {
        let m: Mcfg<u8, u8, usize> = l.clone().into();
        let pm: PMCFG<u8, u8, usize> = m.clone().into();
        let back = Mcfg::from_pmcfg(pm.clone()).ok_or("an LCFRS is no MCFG")?.destruct();
        for (what, (out, i)) in vec![("LCFRS", l.destruct()), ("MCFG", m.destruct()), ("PMCFG", (pm.rules, pm.initial[0])), ("MCFG again", back)] {
            if !same(&out) || i != init {
                return Err(format!("as {}: {:?}, {}", what, out, i));
            }
            o.step();
        }
        o.nontrivial();
    }
    o.state(&(rules, init));
    o.trace();
    o.outcome(&rules.len());
    Ok(())
}

fn wrapping(tier: Tier) -> Suite {
    let shape = Shape { max_terminals: 1, max_symbols: 2, ..Shape::LCFRS };
    let rules = all_rules(&[1, 2], 1, &shape);
    let sets: Vec<Vec<Rule>> = subsets(&rules, 0, tier.pick(2, 3))
        .into_iter()
        .flat_map(|s| {
            // in this order, the other way around, and with the first one twice
            let mut t = s.clone();
            t.reverse();
            let mut u = s.clone();
            u.extend(s.first().cloned());
            vec![s, t, u]
        })
        .collect::<BTreeSet<_>>()
        .into_iter()
        .collect();
    Suite::over(
        "wrapping",
        "all sets of up to 2 (3) small rules in two orders, and with one of them twice, as PMCFG, MCFG and (if well-formed) LCFRS: \
         each lists the same rules with the same weights in the same order; non-trivial: well-formed",
        sets,
        |rules, o| {
            wrapped(rules, 0, o)?;
            wrapped(rules, 1, o)
        },
        |r| r.iter().map(|r| r.show()).collect::<Vec<_>>().join("; "),
    )
}

/// Symbols of rules.
fn symbols(tier: Tier) -> Suite {
    let n = tier.pick(6, 12);
    let mut all: Vec<VarT<u8>> = (0..n as u8).map(VarT::T).collect();
    for i in 0..n {
        for j in 0..n {
            all.push(VarT::Var(i, j));
        }
    }
    let copy = all.clone();
    Suite::over(
        "symbols",
        "all pairs of symbols of rules with numbers up to 6 (12), and all compositions of them with up to two components: what \
         they are, and what is in them",
        all,
        move |a, o| {
            let var = match a {
                VarT::Var(i, j) => Some((*i, *j)),
                VarT::T(_) => None,
            };
            if a.is_var() != var.is_some() || a.is_t() == var.is_some() {
                return Err(format!("variable: {}, terminal: {}", a.is_var(), a.is_t()));
            }
            match (var, catch(|| a.unwrap_var()), catch(|| *a.unwrap_t())) {
                (Some(v), Ok(u), Err(_)) if u == v => (),
                (None, Err(_), Ok(t)) if *a == VarT::T(t) => (),
                (_, u, t) => return Err(format!("unwrapped as {:?} and as {:?}", u, t)),
            }
            for b in &copy {
                let same = format!("{:?}", a) == format!("{:?}", b);
                pair(a, b, same, Ordering::Equal)?;
                o.step();
                for c in vec![vec![], vec![vec![]], vec![vec![a.clone(), b.clone()]], vec![vec![a.clone()], vec![b.clone()]]] {
                    let comp = Composition::from(c.clone());
                    let by_iter: Vec<Vec<VarT<u8>>> = comp.iter().cloned().collect();
                    let by_index: Vec<Vec<VarT<u8>>> = (0..comp.len()).map(|i| comp[i].clone()).collect();
                    let by_ref: Vec<Vec<VarT<u8>>> = (&comp).into_iter().cloned().collect();
                    let mut changed = comp.clone();
                    for component in &mut changed {
                        component.push(a.clone());
                    }
                    let longer: Vec<Vec<VarT<u8>>> =
                        c.iter().map(|x| x.iter().cloned().chain(Some(a.clone())).collect()).collect();
                    let owned: Vec<Vec<VarT<u8>>> = comp.into_iter().collect();
                    if by_iter != c || by_index != c || by_ref != c || owned != c || changed.composition != longer {
                        return Err(format!("the composition {:?} contains {:?}, {:?}, {:?}", c, by_iter, by_index, owned));
                    }
                }
            }
            o.state(a);
            o.trace();
            o.outcome(&a.is_var());
            o.nontrivial();
            Ok(())
        },
        |a| format!("{:?}", a),
    )
}

/// A long rule and what results from one small change of it.
fn large(tier: Tier) -> Suite {
    let sizes: Vec<usize> = (1..=tier.pick(12, 24)).chain(vec![31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect();
    Suite::over(
        "large",
        "rules with n components of up to three symbols, n nonterminals on the right, or n symbols in one component, for n up \
         to 12 (24) and around powers of two up to 257: equal to no rule that differs in one place, or lacks one",
        sizes,
        |&n, o| {
            let bases = vec![
                Rule { head: 0, tail: vec![0; n], comp: vec![vec![S::V(0, 0), S::T(0)]] },
                Rule { head: 0, tail: vec![0], comp: (0..n).map(|i| vec![S::T(i as u8), S::V(0, i)]).collect() },
                Rule { head: 0, tail: vec![0], comp: vec![(0..n).map(|i| if i % 2 == 0 { S::T(0) } else { S::V(0, i / 2) }).collect()] },
            ];
            for base in bases {
                let mut others = vec![];
                for i in 0..base.tail.len() {
                    let mut r = base.clone();
                    r.tail[i] = 1;
                    others.push(r.clone());
                    r.tail.remove(i);
                    others.push(r);
                }
                for i in 0..base.comp.len() {
                    for k in 0..base.comp[i].len() {
                        for s in vec![S::T(200), S::V(0, 300), S::V(1, 0), S::V(300, 0)] {
                            let mut r = base.clone();
                            r.comp[i][k] = s;
                            others.push(r);
                        }
                        let mut r = base.clone();
                        r.comp[i].remove(k);
                        others.push(r);
                        let mut r = base.clone();
                        let rest = r.comp[i].split_off(k);
                        r.comp.insert(i + 1, rest);
                        others.push(r);
                    }
                    let mut r = base.clone();
                    r.comp.remove(i);
                    others.push(r);
                }
                let mut r = base.clone();
                r.head = 1;
                others.push(r);
                let real = weighted(&base, 0);
                for r in &others {
                    pair(&real, &weighted(r, 0), *r == base, Ordering::Equal).map_err(|e| e.chars().take(300).collect::<String>())?;
                    o.step();
                }
                for v in &WEIGHTS {
                    pair(&real, &weighted(&base, *v), true, 0.cmp(v)).map_err(|e| e.chars().take(300).collect::<String>())?;
                    keys(&real, &weighted(&base, *v), true)?;
                }
                let m = real.map_nonterminals(|n| n + 5);
                if m.tail != vec![5; base.tail.len()] || m.head != 5 || m.composition != real.composition {
                    return Err("renamed wrongly".into());
                }
                // the same for context-free rules
                let flat = |r: &Rule, weight: i8| -> C {
                    CFGRule {
                        head: r.head,
                        composition: CFGComposition::from(
                            r.comp
                                .iter()
                                .flatten()
                                .map(|s| match s {
                                    S::T(t) => LetterT::Value(*t),
                                    S::V(i, j) => LetterT::Label((7 * i + j) as u8),
                                })
                                .collect::<Vec<_>>(),
                        ),
                        weight,
                    }
                };
                let c = flat(&base, 0);
                for r in &others {
                    let d = flat(r, 0);
                    let same = c.head == d.head && format!("{:?}", c.composition) == format!("{:?}", d.composition);
                    pair(&c, &d, same, Ordering::Equal).map_err(|e| e.chars().take(300).collect::<String>())?;
                }
                for v in &WEIGHTS {
                    pair(&c, &flat(&base, *v), true, 0.cmp(v)).map_err(|e| e.chars().take(300).collect::<String>())?;
                }
            }
            o.state(&n);
            o.trace();
            o.outcome(&n);
            o.nontrivial();
            Ok(())
        },
        |n| n.to_string(),
    )
}

pub fn check() -> Check {
    Check {
        id: "C39",
        assumptions: vec![],
        build: |t| vec![pmcfg_rules(t), cfg_rules(t), grammars(t), renaming(t), wrapping(t), symbols(t), large(t)],
    }
}
