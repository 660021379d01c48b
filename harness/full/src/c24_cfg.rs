//! Parsing with the pushdown automaton of a context-free grammar against the leftmost
//! derivations of the grammar; beam search.

use crate::parse::{collect, compare, Cost, Dyadic, End, large_sizes, open_at_most, widths_around, with_open, LARGE, WIDTHS};
use log_domain::LogDomain;
use mc_common::enumerate::words;
use mc_common::gram::{all_rules, derivations, show, value, Rule, Shape, S};
use mc_common::{Obs, Suite, Tier, Verdict};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction, PushState};
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::recognisable::{Configuration, Item, Recognisable, Transition};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Automaton<W> = PushDownAutomaton<PushState<u8, u8>, u8, W>;
type Run<W> = Item<PushDown<PushState<u8, u8>>, PushDownInstruction<PushState<u8, u8>>, u8, W>;

fn letters(r: &Rule) -> Vec<LetterT<u8, u8>> {
    r.comp[0]
        .iter()
        .map(|s| match s {
            S::T(t) => LetterT::Value(*t),
            S::V(i, _) => LetterT::Label(r.tail[*i]),
        })
        .collect()
}

pub fn grammar<W: Clone>(rules: &[Rule], weights: &[W], initial: &[u8]) -> CFG<u8, u8, W> {
    CFG {
        initial: initial.to_vec(),
        rules: rules
            .iter()
            .zip(weights)
            .map(|(r, w)| CFGRule { head: r.head, composition: CFGComposition::from(letters(r)), weight: w.clone() })
            .collect(),
    }
}

/// The leftmost derivation of a run: the initial nonterminal and the rules by number; the run
/// is checked to be a run of the automaton on the word that ends with the empty pushdown.
pub fn leftmost<W: Copy + std::ops::Mul<Output = W> + num_traits::One + PartialEq + std::fmt::Debug>(
    Item(conf, run): &Run<W>,
    rules: &[Rule],
    word: &[u8],
) -> Result<(u8, Vec<usize>), String> {
    if !conf.word.is_empty() {
        return Err(format!("the run ends with {:?} still to be read", conf.word));
    }
    let mut at = Configuration { word: word.to_vec(), storage: PushDown::new(PushState::Designated, PushState::Initial), weight: W::one() };
    let mut start = None;
    let mut out = Vec::new();
    let run: Vec<Transition<_, _, W>> = run.clone().into();
    for t in run {
        let PushDownInstruction::Replace { current_val, new_val } = &t.instruction;
        match &current_val[..] {
            [PushState::Initial] => match &new_val[..] {
                [PushState::Nt(n)] if start.is_none() => start = Some(*n),
                _ => return Err(format!("the run contains {:?}", t)),
            },
            [PushState::Nt(n)] => {
                let body: Vec<LetterT<u8, u8>> = new_val
                    .iter()
                    .rev()
                    .map(|s| match s {
                        PushState::Nt(m) => Ok(LetterT::Label(*m)),
                        PushState::T(x) => Ok(LetterT::Value(*x)),
                        s => Err(format!("the run pushes {:?}", s)),
                    })
                    .collect::<Result<_, _>>()?;
                match rules.iter().position(|r| r.head == *n && letters(r) == body) {
                    Some(i) => out.push(i),
                    None => return Err(format!("the run uses {:?}, which is no rule", t)),
                }
            }
            [PushState::T(x)] if t.word == [*x] && new_val.is_empty() => (),
            _ => return Err(format!("the run contains {:?}", t)),
        }
        match t.apply(&at).pop() {
            Some(c) => at = c,
            None => return Err(format!("the run applies {:?} to {:?}", t, at)),
        }
    }
    if !at.word.is_empty() || at.storage != conf.storage || !at.storage.is_bottom() || at.storage.current_symbol() != &PushState::Designated {
        return Err(format!("the run leads to {:?}, not to {:?}", at, conf));
    }
    Ok((start.ok_or("the run has no initial nonterminal")?, out))
}

/// Is this sequence of rules a leftmost derivation of the word?
pub fn derives(rules: &[Rule], start: u8, seq: &[usize], word: &[u8]) -> bool {
    let mut stack = vec![Err(start)];
    let mut read = 0;
    let mut seq = seq.iter();
    while let Some(s) = stack.pop() {
        match s {
            Ok(t) => {
                if word.get(read) != Some(&t) {
                    return false;
                }
                read += 1;
            }
            Err(n) => match seq.next() {
                Some(&r) if rules[r].head == n => stack.extend(rules[r].comp[0].iter().rev().map(|s| match s {
                    S::T(t) => Ok(*t),
                    S::V(i, _) => Err(rules[r].tail[*i]),
                })),
                _ => return false,
            },
        }
    }
    read == word.len() && seq.next().is_none()
}

/// Can the automaton only expand finitely often without reading?
pub fn finite(rules: &[Rule]) -> bool {
    let n = 1 + rules.iter().flat_map(|r| r.tail.iter().chain([&r.head])).max().copied().unwrap_or(0) as usize;
    let mut nullable = vec![false; n];
    loop {
        let before = nullable.clone();
        for r in rules {
            if r.comp[0].iter().all(|s| matches!(s, S::V(i, _) if nullable[r.tail[*i] as usize])) {
                nullable[r.head as usize] = true;
            }
        }
        if before == nullable {
            break;
        }
    }
    let mut reach = vec![vec![false; n]; n];
    for r in rules {
        for s in &r.comp[0] {
            match s {
                S::T(_) => break,
                S::V(i, _) => {
                    let m = r.tail[*i] as usize;
                    reach[r.head as usize][m] = true;
                    if !nullable[m] {
                        break;
                    }
                }
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if reach[i][k] && reach[k][j] {
                    reach[i][j] = true;
                }
            }
        }
    }
    (0..n).all(|i| !reach[i][i])
}

pub type Expected = BTreeMap<(u8, Vec<usize>), i64>;

/// All derivations with at most `bound` cost, by word.
pub fn expected(rules: &[Rule], costs: &[i64], initial: &[u8], bound: i64) -> BTreeMap<Vec<u8>, Expected> {
    let least = costs.iter().min().copied().unwrap_or(1).max(1);
    let mut out: BTreeMap<Vec<u8>, Expected> = BTreeMap::new();
    let table = derivations(rules, (bound / least) as usize);
    for n in initial {
        for d in table.get(n).into_iter().flatten().flatten() {
            let c: i64 = d.rules().iter().map(|r| costs[*r]).sum();
            if c <= bound {
                out.entry(value(rules, d).remove(0)).or_default().insert((*n, d.rules()), c);
            }
        }
    }
    out
}

pub fn costs(kind: usize, n: usize) -> Vec<i64> {
    (0..n as i64)
        .map(|i| match kind {
            0 => 1,
            1 => 1 + i,
            2 => n as i64 - i,
            _ => 1 + i % 2,
        })
        .collect()
}

const BUDGET: u64 = 200_000;

pub fn words_of(max: u32) -> Vec<Vec<u8>> {
    let mut v = words(&[0u8, 1], max);
    // a symbol that is in no rule
    v.push(vec![7]);
    v.push(vec![0, 7]);
    v
}

fn run(rules: &[Rule], kind: usize, initial: &[u8], bound: i64, max_word: u32, obs: &mut Obs) -> Verdict {
    let costs = costs(kind, rules.len());
    let weights: Vec<Cost> = costs.iter().map(|c| Cost(Some(*c))).collect();
    let a: Automaton<Cost> = PushDownAutomaton::from(grammar(rules, &weights, initial));
    let exp = expected(rules, &costs, initial, bound);
    let fin = finite(rules);
    let none = Expected::new();
    for w in words_of(max_word) {
        let e = exp.get(&w).unwrap_or(&none);
        let (n, budget, more) = if fin { (usize::MAX, BUDGET * 10, 0) } else { (e.len(), BUDGET, 1) };
        let (found, end) = collect(|| a.recognise(w.clone()), n, budget, more, 1000)?;
        let mut runs = Vec::new();
        for item in &found {
            let l = leftmost(item, rules, &w).map_err(|e| format!("word {:?}: {}", w, e))?;
            runs.push((item.0.weight, l));
        }
        if fin && end != End::Done {
            return Err(format!("word {:?}: the search does not end", w));
        }
        compare(e, bound, &runs, end, true, &|(s, seq)| {
            if initial.contains(s) && derives(rules, *s, seq, &w) { Some(seq.iter().map(|r| costs[*r]).sum()) } else { None }
        })
        .map_err(|e| format!("word {:?}: {}", w, e))?;
        obs.step();
        obs.trace();
        obs.outcome(&(runs.len(), w.len(), runs.first().map(|r| r.0)));
        if runs.len() > 1 {
            obs.nontrivial();
            obs.note(|| format!("word {:?} has {} parses", w, runs.len()));
        }
    }
    obs.state(&(rules, kind));
    Ok(())
}

/// With any beam: only what exact search finds, in every case; with a wide one: everything.
fn beams(rules: &[Rule], costs: &[i64], bound: i64, words: &[Vec<u8>], widths: &[(usize, bool)], obs: &mut Obs) -> Verdict {
    let weights: Vec<Cost> = costs.iter().map(|c| Cost(Some(*c))).collect();
    let a: Automaton<Cost> = PushDownAutomaton::from(grammar(rules, &weights, &[0]));
    let exp = expected(rules, costs, &[0], bound);
    let fin = finite(rules);
    let none = Expected::new();
    for w in words {
        let e = exp.get(w).unwrap_or(&none);
        let mut counts = Vec::new();
        let widths = with_open(widths, if fin { open_at_most(&a, w, 3000) } else { None });
        for &(beam, wide) in &widths {
            let (n, budget, more) = if fin { (usize::MAX, BUDGET * 10, 0) } else if wide { (e.len(), BUDGET, 1) } else { (e.len() + 1, 2000, 0) };
            let (found, end) = collect(|| a.recognise_beam_search(beam, w.clone()), n, budget, more, 1000)?;
            let mut runs = Vec::new();
            for item in &found {
                let l = leftmost(item, rules, w).map_err(|e| format!("word {:?}, beam {}: {}", w, beam, e))?;
                runs.push((item.0.weight, l));
            }
            if fin && end != End::Done {
                return Err(format!("word {:?}, beam {}: the search does not end", w, beam));
            }
            let valid = |(s, seq): &(u8, Vec<usize>)| {
                if *s == 0 && derives(rules, *s, seq, w) { Some(seq.iter().map(|r| costs[*r]).sum()) } else { None }
            };
            if wide {
                compare(e, bound, &runs, end, true, &valid)
            } else {
                runs.sort_by(|a, b| b.0.cmp(&a.0));
                compare(e, bound, &runs, end, false, &valid)
            }
            .map_err(|e| format!("word {:?}, beam {}: {}", w, beam, e))?;
            obs.step();
            counts.push(runs.len());
        }
        obs.trace();
        obs.outcome(&counts);
        if counts[1] > 0 && counts[1] < *counts.last().unwrap() {
            obs.nontrivial();
            obs.note(|| format!("word {:?}: {:?} parses with beams {:?}", w, counts, widths));
        }
    }
    obs.state(&(rules, costs));
    Ok(())
}

/// All sets of at most `k` of the rules of a shape.
pub fn menu(nonterminals: usize, max_tail: u32, max_symbols: usize, max_terminals: usize) -> Vec<Rule> {
    let sh = Shape {
        linear: true,
        nondeleting: true,
        ordered: true,
        max_terminals,
        max_symbols,
        terminals: 2,
        epsilon_free: false,
    };
    all_rules(&vec![1; nonterminals], max_tail, &sh)
}

fn sets(
    name: &'static str,
    rule: &str,
    menu: Vec<Rule>,
    k: usize,
    kinds: Vec<usize>,
    f: impl Fn(&[Rule], usize, &mut Obs) -> Verdict + Send + Sync + 'static,
) -> Suite {
    let c = mc_common::enumerate::Choices::new(menu.len(), k);
    let menu = Arc::new(menu);
    let (m, d) = (menu.clone(), c.clone());
    let n = kinds.len() as u64;
    let ks = kinds.clone();
    Suite::new(
        name,
        format!("{} (sets of at most {} of {} rules, {} assignments of weights)", rule, k, menu.len(), n),
        c.len() * n,
        move |i, o| {
            let rules: Vec<Rule> = c.get(i / n).into_iter().map(|r| menu[r].clone()).collect();
            if !rules.iter().any(|r| r.head == 0) {
                return Ok(());
            }
            f(&rules, kinds[(i % n) as usize], o)
        },
        move |i| {
            let rules: Vec<Rule> = d.get(i / n).into_iter().map(|r| m[r].clone()).collect();
            format!("{} with costs {:?}", show(&rules), costs(ks[(i % n) as usize], rules.len()))
        },
    )
}

/// Several, no, repeated and useless initial nonterminals; identical rules.
fn initials(tier: Tier) -> Suite {
    let menu = menu(2, 1, 2, 1);
    let c = mc_common::enumerate::Choices::new(menu.len(), tier.pick(3, 4));
    let inits: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 1], vec![1, 0], vec![0, 0], vec![0, 1, 0], vec![5], vec![5, 1]];
    let n = inits.len() as u64;
    let menu = Arc::new(menu);
    let (m, d, ins) = (menu.clone(), c.clone(), inits.clone());
    Suite::new(
        "initials",
        "all sets of at most 3 (4) rules over two nonterminals with at most two symbols, with nine lists of initial nonterminals: \
         none, both, one that has no rules, repeated ones; words of up to two symbols; non-trivial: two parses",
        c.len() * n,
        move |i, o| {
            let rules: Vec<Rule> = c.get(i / n).into_iter().map(|r| menu[r].clone()).collect();
            run(&rules, 0, &inits[(i % n) as usize], 4, 2, o)
        },
        move |i| {
            let rules: Vec<Rule> = d.get(i / n).into_iter().map(|r| m[r].clone()).collect();
            format!("initial {:?}, {}", ins[(i % n) as usize], show(&rules))
        },
    )
}

/// Rules that occur several times, in any places and with any weights.
fn identical(tier: Tier) -> Suite {
    let menu: Vec<Rule> = menu(2, 2, 2, 1).into_iter().filter(|r| r.head == 0 || r.tail.is_empty()).collect();
    let c = mc_common::enumerate::Choices::new(menu.len(), 2);
    let n = tier.pick(4u32, 5);
    let seqs: Vec<Vec<(usize, i64)>> = words(&[(0, 1), (0, 2), (1, 1), (1, 3)], n);
    let len = seqs.len() as u64;
    let (m, d, s) = (menu.clone(), c.clone(), seqs.clone());
    Suite::new(
        "identical",
        format!("all lists of up to {} rules, made of sets of at most 2 of {} rules with two weights each, whose search is finite; words of up to two symbols; all parses, with the products of sums as weights; non-trivial: a rule several times and a parse", n, menu.len()),
        c.len() * len,
        move |i, obs| {
            let set: Vec<Rule> = c.get(i / len).into_iter().map(|r| menu[r].clone()).collect();
            let seq = &seqs[(i % len) as usize];
            if seq.iter().any(|x| x.0 >= set.len()) || !finite(&set) {
                return Ok(());
            }
            let rules: Vec<Rule> = seq.iter().map(|x| set[x.0].clone()).collect();
            let weights: Vec<Dyadic> = seq.iter().map(|x| Dyadic::cost(x.1)).collect();
            let mut sums: Vec<Dyadic> = vec![num_traits::Zero::zero(); set.len()];
            for (x, w) in seq.iter().zip(&weights) {
                sums[x.0] += *w;
            }
            let used: Vec<usize> = (0..set.len()).filter(|r| seq.iter().any(|x| x.0 == *r)).collect();
            let distinct: Vec<Rule> = used.iter().map(|r| set[*r].clone()).collect();
            let exp = expected(&distinct, &vec![1; distinct.len()], &[0], 5);
            let none = Expected::new();
            let a: Automaton<Dyadic> = PushDownAutomaton::from(grammar(&rules, &weights, &[0]));
            for w in words_of(2) {
                let fail = |e: String| format!("word {:?}: {}", w, e);
                let e = exp.get(&w).unwrap_or(&none);
                let (found, end) = collect(|| a.recognise(w.clone()), usize::MAX, BUDGET, 0, 0)?;
                if end != End::Done {
                    return Err(fail("the search does not end".into()));
                }
                let mut seen = Vec::new();
                let mut last: Option<Dyadic> = None;
                for item in &found {
                    let l = leftmost(item, &distinct, &w).map_err(fail)?;
                    let product = l.1.iter().fold(num_traits::One::one(), |p: Dyadic, r| p * sums[used[*r]]);
                    if !e.contains_key(&l) || seen.contains(&l) {
                        return Err(fail(format!("{:?} is no parse, or found twice", l)));
                    }
                    if item.0.weight != product || last.map_or(false, |l| l < product) {
                        return Err(fail(format!("{:?} has weight {:?}, not {:?} (before: {:?})", l, item.0.weight, product, last)));
                    }
                    last = Some(product);
                    seen.push(l);
                }
                if seen.len() != e.len() {
                    return Err(fail(format!("{} of {} parses are found", seen.len(), e.len())));
                }
                obs.step();
                obs.outcome(&(w.len(), last.map(|w| format!("{:?}", w))));
                if !seen.is_empty() && used.len() < seq.len() {
                    obs.nontrivial();
                    obs.note(|| format!("word {:?} has {} parses, the last with weight {:?}", w, seen.len(), last));
                }
            }
            obs.trace();
            obs.state(&(&set, seq));
            Ok(())
        },
        move |i| {
            let set: Vec<Rule> = d.get(i / len).into_iter().map(|r| m[r].clone()).collect();
            format!("{} with rules and costs {:?}", show(&set), s[(i % len) as usize])
        },
    )
}

/// Probabilities as in practice, in the logarithmic domain.
fn probabilities(tier: Tier) -> Suite {
    let menu: Vec<Rule> = menu(2, 2, 2, 2);
    let k = tier.pick(3, 4);
    sets(
        "probabilities",
        "context-free grammars over two nonterminals whose search is finite, with weights 0.7, 0.2, 0.05, … in the logarithmic \
         domain; words of up to three symbols; non-trivial: two parses",
        menu,
        k,
        vec![0],
        move |rules, _, obs| {
            if !finite(rules) {
                return Ok(());
            }
            let ws = [0.7, 0.2, 0.05, 0.3];
            let weights: Vec<LogDomain<f64>> = (0..rules.len()).map(|i| LogDomain::new(ws[i]).unwrap()).collect();
            let a: Automaton<LogDomain<f64>> = PushDownAutomaton::from(grammar(rules, &weights, &[0]));
            let bound = 7;
            let exp = expected(rules, &vec![1; rules.len()], &[0], bound);
            let none = Expected::new();
            for w in words_of(3) {
                let found: Vec<_> = a.recognise(w.clone()).collect();
                let e = exp.get(&w).unwrap_or(&none);
                let mut seen: Vec<(u8, Vec<usize>)> = Vec::new();
                for (i, item) in found.iter().enumerate() {
                    let l = leftmost(item, rules, &w).map_err(|e| format!("word {:?}: {}", w, e))?;
                    let p: f64 = l.1.iter().map(|r| ws[*r]).product();
                    let got: f64 = item.0.weight.value();
                    if !derives(rules, 0, &l.1, &w) || seen.contains(&l) {
                        return Err(format!("word {:?}: {:?} is no parse, or found twice", w, l));
                    }
                    if (got / p - 1.0).abs() > 1e-9 {
                        return Err(format!("word {:?}: {:?} has weight {}, not {}", w, l, got, p));
                    }
                    if i > 0 && found[i - 1].0.weight < item.0.weight {
                        return Err(format!("word {:?}: number {} is better than the one before", w, i));
                    }
                    seen.push(l);
                }
                if let Some(m) = e.keys().find(|k| !seen.contains(k)) {
                    return Err(format!("word {:?}: {:?} is not found", w, m));
                }
                obs.step();
                obs.trace();
                obs.outcome(&seen.len());
                if seen.len() > 1 {
                    obs.nontrivial();
                }
            }
            obs.state(rules);
            Ok(())
        },
    )
}

/// Families of grammars with a plain number of derivations for a word, and a wrong word.
pub fn family(n: usize, kind: usize) -> (Vec<Rule>, Vec<u8>, Vec<u8>, usize) {
    let v = |i| S::V(i, 0);
    let rule = |head: u8, tail: Vec<u8>, c: Vec<S>| Rule { head, tail, comp: vec![c] };
    match kind {
        0 => (vec![rule(0, vec![0], vec![S::T(0), v(0)]), rule(0, vec![], vec![S::T(1)])], [vec![0; n], vec![1]].concat(), vec![0; n + 1], 1),
        1 => (
            vec![rule(0, vec![0], vec![S::T(0), v(0), S::T(1)]), rule(0, vec![], vec![])],
            [vec![0; n], vec![1; n]].concat(),
            [vec![0; n], vec![1; n + 1]].concat(),
            1,
        ),
        2 => {
            let m = n.min(200);
            let mut rs: Vec<Rule> = (0..m).map(|i| rule(0, vec![1 + i as u8], vec![v(0)])).collect();
            rs.extend((0..m).map(|i| rule(1 + i as u8, vec![], vec![S::T(0)])));
            (rs, vec![0], vec![0, 0], m)
        }
        3 => {
            let m = n.min(200);
            let mut rs: Vec<Rule> = (0..m).map(|i| rule(i as u8, vec![1 + i as u8], vec![v(0)])).collect();
            rs.push(rule(m as u8, vec![], vec![S::T(0)]));
            (rs, vec![0], vec![1], 1)
        }
        _ => {
            let w: Vec<u8> = (0..n).map(|i| (i * i % 7 % 2) as u8).collect();
            let mut other = w.clone();
            *other.last_mut().unwrap() ^= 1;
            (vec![rule(0, vec![], w.iter().map(|t| S::T(*t)).collect())], w, other, 1)
        }
    }
}

/// Long words and many rules.
fn large(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(30usize, 60)).chain([63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300]) {
        for kind in 0..5 {
            cases.push((n, kind));
        }
    }
    Suite::over(
        "large",
        "grammars with one derivation or a plain number of them, for all n up to 30 (60) and some up to 300: right recursion and \
         centre embedding for a word of n (pairs of) symbols, n rules for one word, a chain of n nonterminals, a rule with n symbols; \
         with a wrong word each",
        cases,
        |&(n, kind), obs| {
            let (rules, word, wrong, number) = family(n, kind);
            let costs: Vec<i64> = (0..rules.len() as i64).map(|i| i % 5).collect();
            let weights: Vec<Cost> = costs.iter().map(|c| Cost(Some(*c))).collect();
            let a: Automaton<Cost> = PushDownAutomaton::from(grammar(&rules, &weights, &[0]));
            if a.recognise(wrong.clone()).next().is_some() {
                return Err("the wrong word is accepted".into());
            }
            let found: Vec<_> = a.recognise(word.clone()).collect();
            if found.len() != number {
                return Err(format!("{} parses instead of {}", found.len(), number));
            }
            let mut last = i64::MIN;
            for item in &found {
                let (s, seq) = leftmost(item, &rules, &word)?;
                let c: i64 = seq.iter().map(|r| costs[*r]).sum();
                if s != 0 || !derives(&rules, 0, &seq, &word) || item.0.weight != Cost(Some(c)) || c < last {
                    return Err(format!("{:?} with weight {:?} (cost {}, before: {})", seq, item.0.weight, c, last));
                }
                last = c;
                obs.step();
            }
            obs.trace();
            obs.state(&(n, kind));
            obs.outcome(&(n, kind));
            if n > 1 {
                obs.nontrivial();
            }
            Ok(())
        },
        |c| format!("{:?} (n, kind)", c),
    )
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let text = "all context-free grammars over two nonterminals with rules of at most two symbols; words of up to three symbols and \
                two with an unknown symbol; all parses of cost up to 6 (all there are if the search is finite); non-trivial: two parses";
    let one = "all context-free grammars over one nonterminal with rules of at most three symbols; words of up to three (four) symbols and two \
               with an unknown symbol; all parses of cost up to 6 (7); non-trivial: two parses";
    let three = "all context-free grammars over three nonterminals with rules of at most one nonterminal, at most one terminal and at \
               most two symbols; words of up to three symbols; all parses of cost up to 7; non-trivial: two parses";
    vec![
        large(t),
        sets("two", text, menu(2, 2, 2, 2), t.pick(3, 4), t.pick(vec![0, 1], vec![0, 1]), |r, k, o| run(r, k, &[0], 6, 3, o)),
        sets("one", one, menu(1, 3, 3, 3), t.pick(3, 4), t.pick(vec![2], vec![0, 1, 2]), move |r, k, o| run(r, k, &[0], t.pick(6, 7), t.pick(3, 4), o)),
        sets("three", three, menu(3, 1, 2, 1), t.pick(3, 4), vec![1], |r, k, o| run(r, k, &[0], 7, 3, o)),
        initials(t),
        identical(t),
        probabilities(t),
    ]
}

pub fn beam_suites(t: Tier) -> Vec<Suite> {
    let text = "all context-free grammars over two nonterminals with rules of at most two symbols; words of up to three symbols and \
                two with an unknown symbol; beams 0, 1, 2, 3, 5, 100000 and the largest number; parses of cost up to 5; non-trivial: a beam of 1 finds some but not all";
    let one = "all context-free grammars over one nonterminal with rules of at most three symbols; words of up to three symbols; \
                the same beams; non-trivial: a beam of 1 finds some but not all";
    vec![
        sets("cfg-two", text, menu(2, 2, 2, 2), t.pick(2, 3), vec![1], |r, k, o| beams(r, &costs(k, r.len()), 5, &words_of(3), &WIDTHS, o)),
        sets("cfg-one", one, menu(1, 3, 3, 3), t.pick(2, 3), vec![0, 1], |r, k, o| beams(r, &costs(k, r.len()), 5, &words_of(3), &WIDTHS, o)),
        Suite::over(
            "cfg-large",
            LARGE,
            large_sizes(t),
            |&n, o| {
                let rule = |head: u8, tail: Vec<u8>, c: Vec<S>| Rule { head, tail, comp: vec![c] };
                let mut rs: Vec<Rule> = (0..n).map(|i| rule(0, vec![1 + i as u8], vec![S::V(0, 0)])).collect();
                rs.extend((0..n).map(|i| rule(1 + i as u8, vec![], vec![S::T(0)])));
                let costs: Vec<i64> = (0..2 * n as i64).map(|i| i % 5).collect();
                beams(&rs, &costs, 8, &[vec![0], vec![0, 0]], &widths_around(n), o)
            },
            |n| format!("{} parses", n),
        ),
    ]
}
