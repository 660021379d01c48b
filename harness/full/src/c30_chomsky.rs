//! Parsing with the Chomsky-Schützenberger representation of a linear context-free rewriting
//! system against the derivations of the grammar; limits of the search; storing the
//! representation.

use crate::c24_cfg::words_of;
use crate::c25_mcfg::{prule, read_tree, useful, PRule};
use crate::parse::{collect, compare, Cost, End};
use mc_common::enumerate::{permutations, Choices};
use mc_common::gram::{all_rules, show, value, Der, Rule, Shape, S};
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use rustomata::grammars::lcfrs::csparsing::{CSRepresentation, DebugResult};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;
use rustomata::util::tree::GornTree;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::Arc;

type Cs = CSRepresentation<u8, u8, Cost>;
type Range = (usize, usize);

// ---------------------------------------------------------------------------------------------
// The reference

/// All derivations of a nonterminal for ranges of a word, up to a cost; for grammars without
/// empty components.
struct Reference<'a> {
    rules: &'a [Rule],
    costs: &'a [i64],
    word: &'a [u8],
    table: Table,
}

type Table = std::collections::BTreeSet<(u8, usize, usize, usize)>;

/// All ways to cut a range into `n` parts of at least one symbol.
fn cuts((l, r): Range, n: usize, f: &mut dyn FnMut(&[Range])) {
    fn go(l: usize, r: usize, n: usize, acc: &mut Vec<Range>, f: &mut dyn FnMut(&[Range])) {
        if n == 1 {
            if l < r {
                acc.push((l, r));
                f(acc);
                acc.pop();
            }
            return;
        }
        for m in l + 1..(r + 2).saturating_sub(n) {
            acc.push((l, m));
            go(m, r, n - 1, acc, f);
            acc.pop();
        }
    }
    go(l, r, n, &mut Vec::new(), f)
}

impl<'a> Reference<'a> {
    fn derivations(&self, n: u8, at: &[Range], bound: i64) -> Vec<(Rc<Der>, i64)> {
        let mut out = Vec::new();
        for (i, r) in self.rules.iter().enumerate().filter(|(_, r)| r.head == n && r.comp.len() == at.len()) {
            let left = bound - self.costs[i];
            if left < 0 {
                continue;
            }
            let mut options: Vec<Vec<Vec<Range>>> = vec![r.tail.iter().map(|_| Vec::new()).collect()];
            for (c, range) in r.comp.iter().zip(at) {
                let mut next = Vec::new();
                if let [S::T(t)] = c[..] {
                    if range.1 == range.0 + 1 && self.word[range.0] == t {
                        next = options;
                    }
                } else {
                    cuts(*range, c.len(), &mut |parts| {
                        if !c.iter().zip(parts).all(|(s, p)| matches!(s, S::V(k, j) if self.table.contains(&(r.tail[*k], *j, p.0, p.1)))) {
                            return;
                        }
                        for o in &options {
                            let mut o = o.clone();
                            for (s, p) in c.iter().zip(parts) {
                                let S::V(k, j) = s else { panic!("not in normal form") };
                                if o[*k].len() <= *j {
                                    o[*k].resize(j + 1, (0, 0));
                                }
                                o[*k][*j] = *p;
                            }
                            next.push(o);
                        }
                    });
                }
                options = next;
            }
            for o in options {
                let mut kids: Vec<(Vec<Rc<Der>>, i64)> = vec![(vec![], 0)];
                for (m, ranges) in r.tail.iter().zip(&o) {
                    let least = kids.iter().map(|k| k.1).min();
                    let Some(least) = least else { break };
                    let ds = self.derivations(*m, ranges, left - least);
                    kids = kids
                        .iter()
                        .flat_map(|(k, c)| {
                            ds.iter().filter(move |d| c + d.1 <= left).map(move |d| {
                                let mut k = k.clone();
                                k.push(d.0.clone());
                                (k, c + d.1)
                            })
                        })
                        .collect();
                }
                out.extend(kids.into_iter().map(|(kids, c)| (Rc::new(Der { rule: i, kids }), c + self.costs[i])));
            }
        }
        out
    }

    fn parses(&self, bound: i64) -> BTreeMap<Der, i64> {
        if self.word.is_empty() {
            return BTreeMap::new();
        }
        self.derivations(0, &[(0, self.word.len())], bound).into_iter().map(|(d, c)| ((*d).clone(), c)).collect()
    }
}

/// Is the word in the context-free approximation, where components are derived independently,
/// of the rules that are in some derivation of some word over the symbols of the word?
fn approximated(rules: &[Rule], word: &[u8]) -> bool {
    table(rules, word).contains(&(0, 0, 0, word.len()))
}

/// What the components can derive of the word in the context-free approximation.
fn table(rules: &[Rule], word: &[u8]) -> Table {
    let n = word.len();
    let mut productive: Vec<u8> = Vec::new();
    let usable = |r: &Rule, productive: &[u8]| {
        r.tail.iter().all(|t| productive.contains(t)) && r.comp.iter().flatten().all(|s| matches!(s, S::V(..)) || matches!(s, S::T(t) if word.contains(t)))
    };
    loop {
        let before = productive.len();
        for r in rules {
            if !productive.contains(&r.head) && usable(r, &productive) {
                productive.push(r.head);
            }
        }
        if productive.len() == before {
            break;
        }
    }
    let mut known = Table::new();
    for width in 1..=n {
        for l in 0..=n - width {
            let e = l + width;
            loop {
                let before = known.len();
                for r in rules.iter().filter(|r| usable(r, &productive)) {
                    for (j, c) in r.comp.iter().enumerate() {
                        if known.contains(&(r.head, j, l, e)) {
                            continue;
                        }
                        let mut ok = false;
                        if let [S::T(t)] = c[..] {
                            ok = width == 1 && word[l] == t;
                        } else {
                            cuts((l, e), c.len(), &mut |parts| {
                                ok |= c.iter().zip(parts).all(|(s, p)| matches!(s, S::V(k, i) if known.contains(&(r.tail[*k], *i, p.0, p.1))));
                            });
                        }
                        if ok {
                            known.insert((r.head, j, l, e));
                        }
                    }
                }
                if known.len() == before {
                    break;
                }
            }
        }
    }
    known
}

/// Does the context-free approximation have finitely many derivations for each word?
fn finite(rules: &[Rule]) -> bool {
    let mut edges = Vec::new();
    for r in rules {
        for (j, c) in r.comp.iter().enumerate() {
            if let [S::V(k, i)] = c[..] {
                edges.push(((r.head, j), (r.tail[k], i)));
            }
        }
    }
    // remove what has no outgoing edge until nothing is left
    loop {
        let before = edges.len();
        let heads: Vec<_> = edges.iter().map(|e| e.0).collect();
        edges.retain(|e| heads.contains(&e.1));
        if edges.len() == before {
            return edges.is_empty();
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// Costs are multiples of this, such that a cost can be divided among components.
const UNIT: i64 = 12;
/// The cost up to which parses are expected if there are infinitely many.
const BOUND: i64 = 4 * UNIT;
const BUDGET: u64 = 300_000;
const ALL: i64 = i64::MAX / 4;

fn costs(kind: usize, n: usize) -> Vec<i64> {
    match kind {
        4 => return vec![0; n],
        5 => return (0..n as i64).map(|i| (1 + i * 5 % 7) * UNIT).collect(),
        6 => return (0..n as i64).map(|i| (1 + (i * 3 + 2) % 5) * UNIT).collect(),
        _ => (),
    }
    crate::c24_cfg::costs(kind, n).into_iter().map(|c| c * UNIT).collect()
}

pub struct Subject {
    pub rules: Vec<Rule>,
    costs: Vec<i64>,
    prules: Vec<PRule<Cost>>,
    pub finite: bool,
}

impl Subject {
    fn new(rules: &[Rule], costs: Vec<i64>) -> Subject {
        let prules = rules.iter().zip(&costs).map(|(r, c)| prule(r, &Cost(Some(*c)))).collect();
        Subject { rules: rules.to_vec(), costs, prules, finite: finite(rules) }
    }
    pub fn grammar(&self) -> Option<Lcfrs<u8, u8, Cost>> {
        Lcfrs::new(self.prules.clone(), 0)
    }
    fn valid<'a>(&'a self, word: &'a [u8]) -> impl Fn(&Der) -> Option<i64> + 'a {
        move |d| {
            if self.rules[d.rule].head == 0 && value(&self.rules, d)[0] == word {
                Some(crate::c25_mcfg::cost(d, &self.costs))
            } else {
                None
            }
        }
    }
    fn expected(&self, word: &[u8], bound: i64) -> BTreeMap<Der, i64> {
        Reference { rules: &self.rules, costs: &self.costs, word, table: table(&self.rules, word) }.parses(if self.finite { ALL } else { bound })
    }
    fn read(&self, t: &GornTree<PRule<Cost>>) -> Result<(Cost, Der), String> {
        let d = read_tree(t, &self.prules)?;
        Ok((Cost(Some(crate::c25_mcfg::cost(&d, &self.costs))), d))
    }
    /// Takes all parses if they are finitely many, else `n` and one more.
    fn take<'a>(&self, n: usize, make: impl FnOnce() -> Box<dyn Iterator<Item = GornTree<&'a PRule<Cost>>> + 'a>) -> Result<(Vec<(Cost, Der)>, End), String> {
        let (n, budget, more) = if self.finite { (usize::MAX, BUDGET * 10, 0) } else { (n, BUDGET, 1) };
        let (trees, end) = collect(make, n, budget, more, 3000)?;
        if self.finite && end != End::Done {
            return Err("the enumeration does not end".into());
        }
        let found = trees.into_iter().map(|t| self.read(&t.cloned())).collect::<Result<Vec<_>, _>>()?;
        Ok((found, end))
    }
}

fn all<'a>(cs: &'a Cs, w: &[u8]) -> Box<dyn Iterator<Item = GornTree<&'a PRule<Cost>>> + 'a> {
    Box::new(cs.build_generator().with_fallback(w).0)
}

/// Every parse is found exactly once, and nothing else.
fn parses(s: &Subject, words: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    let Some(g) = s.grammar() else { return Ok(()) };
    let cs = Cs::new(g, 0);
    for w in words.iter().cloned() {
        let e = s.expected(&w, BOUND);
        let (mut found, end) = s.take(e.len(), || all(&cs, &w)).map_err(|e| format!("word {:?}: {}", w, e))?;
        found.sort_by(|a, b| b.0.cmp(&a.0));
        compare(&e, if s.finite { ALL } else { BOUND }, &found, end, true, &s.valid(&w)).map_err(|e| format!("word {:?}: {}", w, e))?;
        obs.step();
        obs.trace();
        obs.outcome(&(found.len(), w.len(), found.first().map(|f| f.0)));
        if found.len() > 1 || found.len() == 1 && w.len() > 2 {
            obs.nontrivial();
            obs.note(|| format!("word {:?} has {} parses", w, found.len()));
        }
    }
    obs.state(&s.prules);
    Ok(())
}

/// Parses come best first, whatever the width of the estimates.
fn order(s: &Subject, words: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    let widths = [0, 1, 3, (1 + words.iter().map(|w| w.len()).max().unwrap_or(0)).min(30)];
    let mut css = Vec::new();
    for width in widths {
        match s.grammar() {
            Some(g) => css.push(Cs::new(g, width)),
            None => return Ok(()),
        }
    }
    for w in words.iter().cloned() {
        let e = s.expected(&w, BOUND);
        let mut counts = Vec::new();
        for (cs, width) in css.iter().zip(widths) {
            let (found, end) = s.take(e.len(), || all(cs, &w)).map_err(|e| format!("word {:?}, estimates for {}: {}", w, width, e))?;
            compare(&e, if s.finite { ALL } else { BOUND }, &found, end, true, &s.valid(&w))
                .map_err(|e| format!("word {:?}, estimates for {}: {}", w, width, e))?;
            counts.push((found.len(), found.last().map(|f| f.0)));
            obs.step();
        }
        obs.trace();
        obs.outcome(&counts);
        if counts[0].0 > 1 {
            obs.nontrivial();
            obs.note(|| format!("word {:?} has {} parses", w, counts[0].0));
        }
    }
    obs.state(&s.prules);
    Ok(())
}

/// The word of a tree of merged rules: each node's nonterminals are the heads below it.
fn fallback_word(t: &GornTree<PRule<Cost>>, at: &mut Vec<usize>, seen: &mut usize) -> Result<(u8, Vec<Vec<u8>>), String> {
    let m: BTreeMap<Vec<usize>, PRule<Cost>> = t.clone().into_iter().collect();
    fn go(m: &BTreeMap<Vec<usize>, PRule<Cost>>, at: &mut Vec<usize>, seen: &mut usize) -> Result<(u8, Vec<Vec<u8>>), String> {
        let r = m.get(at).ok_or_else(|| format!("nothing at {:?}", at))?;
        *seen += 1;
        let mut kids = Vec::new();
        for (i, n) in r.tail.iter().enumerate() {
            at.push(i);
            let (head, v) = go(m, at, seen)?;
            if head != *n {
                return Err(format!("a rule for {} instead of {} at {:?}", head, n, at));
            }
            at.pop();
            kids.push(v);
        }
        let mut out = Vec::new();
        for c in &r.composition.composition {
            let mut word = Vec::new();
            for s in c {
                match *s {
                    VarT::T(t) => word.push(t),
                    VarT::Var(i, j) => word.extend(kids.get(i).and_then(|k| k.get(j)).ok_or_else(|| format!("no component {} of {} at {:?}", j, i, at))?),
                }
            }
            out.push(word);
        }
        Ok((r.head, out))
    }
    let r = go(&m, at, seen)?;
    if *seen != m.len() {
        return Err(format!("{} rules in the tree, {} of them reached", m.len(), seen));
    }
    Ok(r)
}

fn check_fallback(t: &GornTree<PRule<Cost>>, w: &[u8]) -> Result<(), String> {
    let (head, v) = fallback_word(t, &mut Vec::new(), &mut 0).map_err(|e| format!("the fallback is not well-formed: {}", e))?;
    if head != 0 || v != [w] {
        return Err(format!("the fallback is for {} and derives {:?}", head, v));
    }
    Ok(())
}

/// The enumeration ends after the candidates if there is no end of parses; beams and thresholds
/// let it begin with parses, if any.
fn limits_of_infinite(s: &Subject, words: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    let Some(g) = s.grammar() else { return Ok(()) };
    let cs = Cs::new(g, 0);
    let none = BTreeMap::new();
    for w in words {
        let at = |l: String| { let w = w.clone(); move |e: String| format!("word {:?}, {}: {}", w, l, e) };
        let (trees, end) = collect(|| all(&cs, w), 6, 300, 0, 0).map_err(at("no limits".into()))?;
        let base = trees.into_iter().map(|t| s.read(&t.cloned())).collect::<Result<Vec<_>, _>>().map_err(at("no limits".into()))?;
        let mut counts = vec![base.len()];
        for candidates in 0..=4 {
            let mut g = cs.build_generator();
            g.set_candidates(candidates);
            let l = format!("{} candidates", candidates);
            let (it, fallback) = g.with_fallback(w);
            let (trees, ended) = collect(move || it, candidates + 1, BUDGET, 0, 0).map_err(at(l.clone()))?;
            if ended != End::Done {
                return Err(at(l)(format!("the enumeration does not end after {} parses: {:?}", trees.len(), ended)));
            }
            let found = trees.into_iter().map(|t| s.read(&t.cloned())).collect::<Result<Vec<_>, _>>().map_err(at(l.clone()))?;
            compare(&none, -1, &found, ended, false, &s.valid(w)).map_err(at(l.clone()))?;
            let n = found.len().min(base.len());
            if found[..n] != base[..n] || found.len() > base.len() && end == End::Done || found.len() > candidates {
                return Err(at(l)(format!("{} parses are found, which are not the best", found.len())));
            }
            if fallback.is_some() != approximated(&s.rules, w) {
                return Err(at(l)(format!("fallback: {:?}", fallback.is_some())));
            }
            if let Some(t) = &fallback {
                check_fallback(t, w).map_err(at(l.clone()))?;
            }
            counts.push(found.len());
            obs.step();
        }
        for (beam, delta) in [(Some(0), None), (Some(1), None), (Some(2), None), (Some(65_536), None), (None, Some(0)), (None, Some(2 * UNIT))] {
            let mut g = cs.build_generator();
            beam.map(|b| g.set_beam(b));
            delta.map(|d| g.set_delta(Cost(Some(d))));
            let l = format!("beam {:?}, threshold {:?}", beam, delta);
            let (it, _) = g.with_fallback(w);
            let (trees, ended) = collect(move || it, base.len().max(1), 300, 0, 0).map_err(at(l.clone()))?;
            let found = trees.into_iter().map(|t| s.read(&t.cloned())).collect::<Result<Vec<_>, _>>().map_err(at(l.clone()))?;
            compare(&none, -1, &found, ended, false, &s.valid(w)).map_err(at(l.clone()))?;
            if beam == Some(65_536) && found.len() < base.len() {
                return Err(at(l)(format!("{} of {} parses", found.len(), base.len())));
            }
            obs.step();
        }
        obs.trace();
        obs.outcome(&counts);
        if counts[0] > 3 {
            obs.nontrivial();
            obs.note(|| format!("word {:?}: {:?} parses with 0 to 4 candidates, infinitely many without limits", w, &counts[1..]));
        }
    }
    obs.state(&s.prules);
    Ok(())
}

/// Limits lose parses, but do not invent or reorder them; limits that are not reached lose none.
fn limits(s: &Subject, words: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    if !s.finite {
        return limits_of_infinite(s, words, obs);
    }
    let Some(g) = s.grammar() else { return Ok(()) };
    let cs = Cs::new(g, 0);
    // one generator for all words: what it did before does not matter
    let g = cs.build_generator();
    let none = BTreeMap::new();
    for w in words.iter().cloned() {
        let at = |l: String| { let w = w.clone(); move |e: String| format!("word {:?}, {}: {}", w, l, e) };
        let (base, _) = s.take(0, || Box::new(g.with_fallback(&w).0)).map_err(at("no limits".into()))?;
        let mut counts = Vec::new();
        let mut check = |l: String, g: &rustomata::grammars::lcfrs::csparsing::GeneratorBuilder<u8, u8, Cost>, same: bool, prefix: Option<usize>| -> Result<usize, String> {
            let (it, fallback) = g.with_fallback(&w);
            let (found, end) = s.take(0, || Box::new(it)).map_err(at(l.clone()))?;
            compare(&none, -1, &found, end, false, &s.valid(&w)).map_err(at(l.clone()))?;
            if let Some(d) = found.iter().find(|d| !base.contains(d)) {
                return Err(at(l)(format!("{} is only found with the limit", d.1.show())));
            }
            if same && found != base {
                return Err(at(l)(format!("{} of {} parses are found, or another order", found.len(), base.len())));
            }
            if let Some(n) = prefix {
                if found.len() > n || base[..found.len()] != found[..] {
                    return Err(at(l)(format!("{} parses are found, which are not the best {}", found.len(), n)));
                }
            }
            if let Some(t) = &fallback {
                check_fallback(t, &w).map_err(at(l.clone()))?;
            }
            if fallback.is_none() && !found.is_empty() || same && fallback.is_some() != approximated(&s.rules, &w) {
                return Err(at(l)(format!("fallback: {:?}", fallback.is_some())));
            }
            match g.debug(&w) {
                (rules, len, _, _) if rules != s.rules.len() || len != w.len() => return Err(at(l)(format!("{} rules, {} words", rules, len))),
                (_, _, _, DebugResult::Parse(t, _)) => {
                    if found.first() != Some(&s.read(&t).map_err(at(l.clone()))?) {
                        return Err(at(l)("the debug result is not the first parse".into()));
                    }
                }
                (_, _, _, DebugResult::Fallback(t, n)) => {
                    if !found.is_empty() || n == 0 || Some(&t) != fallback.as_ref() {
                        return Err(at(l)("the debug result is a fallback".into()));
                    }
                }
                (_, _, _, DebugResult::Noparse) => {
                    if !found.is_empty() || fallback.is_some() && prefix != Some(0) {
                        return Err(at(l)("the debug result is no parse".into()));
                    }
                }
            }
            obs.step();
            counts.push(found.len());
            Ok(found.len())
        };
        check("no limits".into(), &cs.build_generator(), true, None)?;
        for beam in [0, 1, 2, 3, 1000, 65_535, 65_536, 1 << 40, usize::MAX] {
            let mut g = cs.build_generator();
            g.set_beam(beam);
            check(format!("beam {}", beam), &g, beam >= 1000, None)?;
        }
        for delta in [Some(0), Some(UNIT), Some(3 * UNIT), Some(1_000_000), None] {
            let mut g = cs.build_generator();
            g.set_delta(Cost(delta));
            check(format!("threshold {:?}", Cost(delta)), &g, delta.map_or(true, |d| d > 1000), None)?;
        }
        let mut last = 0;
        for candidates in [0, 1, 2, 3, 4, 1_000_000, usize::MAX] {
            let mut g = cs.build_generator();
            g.set_candidates(candidates);
            let n = check(format!("{} candidates", candidates), &g, candidates >= 1_000_000, Some(candidates))?;
            if n < last {
                return Err(at(format!("{} candidates", candidates))(format!("{} parses, {} with fewer candidates", n, last)));
            }
            last = n;
        }
        {
            let mut g = cs.build_generator();
            g.set_beam(2);
            g.set_delta(Cost(Some(UNIT)));
            g.set_candidates(2);
            g.allow_root_prediction();
            check("beam 2, threshold, 2 candidates".into(), &g, false, None)?;
        }
        obs.trace();
        obs.outcome(&counts);
        if counts.iter().any(|c| *c != 0 && *c < base.len()) || base.is_empty() && approximated(&s.rules, &w) {
            obs.nontrivial();
            obs.note(|| format!("word {:?}: {:?} parses with the limits, {} without", w, counts, base.len()));
        }
    }
    obs.state(&s.prules);
    Ok(())
}

/// A representation that is stored and read again finds the same parses in the same order.
fn stored(s: &Subject, words: &[Vec<u8>], obs: &mut Obs) -> Verdict {
    let mut parses = 0;
    for width in [0, 2, 5] {
        let Some(g) = s.grammar() else { return Ok(()) };
        let cs = Cs::new(g, width);
        let bytes = bincode::serialize(&cs, bincode::Infinite).map_err(|e| e.to_string())?;
        let again: Cs = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
        for w in words.iter().cloned() {
            let n = s.expected(&w, BOUND).len();
            let (a, _) = s.take(n, || all(&cs, &w)).map_err(|e| format!("word {:?}: {}", w, e))?;
            let (b, _) = s.take(n, || all(&again, &w)).map_err(|e| format!("word {:?}, stored: {}", w, e))?;
            if a != b {
                return Err(format!("word {:?}, estimates for {}: {} parses, {} after storing the representation, or another order", w, width, a.len(), b.len()));
            }
            let run = |cs: &Cs| {
                let mut g = cs.build_generator();
                g.set_beam(2);
                g.set_delta(Cost(Some(2 * UNIT)));
                g.set_candidates(20);
                let (it, fallback) = g.with_fallback(&w);
                (it.map(|t| t.cloned()).collect::<Vec<_>>(), fallback)
            };
            if run(&cs) != run(&again) {
                return Err(format!("word {:?}, estimates for {}: another result with limits after storing the representation", w, width));
            }
            obs.step();
            obs.trace();
            obs.outcome(&(a.len(), w.len()));
            parses += a.len();
        }
        let twice = bincode::serialize(&again, bincode::Infinite).map_err(|e| e.to_string())?;
        if twice.len() != bytes.len() {
            return Err(format!("{} bytes, {} the second time", bytes.len(), twice.len()));
        }
    }
    if parses > 3 {
        obs.nontrivial();
    }
    obs.state(&s.prules);
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// All rules in normal form: variables only and no empty component, or one terminal.
pub fn menu(fanouts: &[usize], max_tail: u32, max_symbols: usize, terminals: u8) -> Vec<Rule> {
    let sh = Shape { linear: true, nondeleting: true, ordered: false, max_terminals: 0, max_symbols, terminals: 0, epsilon_free: true };
    let mut v = all_rules(fanouts, max_tail, &sh);
    // the order of two nonterminals in a rule: first the one that is used first
    v.retain(|r| r.tail.len() < 2 || matches!(r.comp[0].first(), Some(S::V(0, _))));
    for (n, _) in fanouts.iter().enumerate().filter(|f| *f.1 == 1) {
        v.extend((0..terminals).map(|t| Rule { head: n as u8, tail: vec![], comp: vec![vec![S::T(t)]] }));
    }
    v
}

pub fn sets(
    name: &'static str,
    rule: &str,
    (base, menu): (Vec<Rule>, Vec<Rule>),
    k: usize,
    kinds: Vec<usize>,
    f: impl Fn(&Subject, &mut Obs) -> Verdict + Send + Sync + 'static,
) -> Suite {
    let c = Choices::new(menu.len(), k);
    let menu = Arc::new(menu);
    let (m, d, b) = (menu.clone(), c.clone(), base.clone());
    let n = kinds.len() as u64;
    let ks = kinds.clone();
    Suite::new(
        name,
        format!("{} (sets of at most {} of {} rules{}, {} assignments of weights)", rule, k, menu.len(), if base.is_empty() { "".into() } else { format!(" with {}", show(&base)) }, n),
        c.len() * n,
        move |i, o| {
            let rules: Vec<Rule> = c.get(i / n).into_iter().map(|r| menu[r].clone()).chain(base.iter().cloned()).collect();
            if !useful(&rules) || !rules.iter().all(|r| r.tail.iter().all(|t| rules.iter().any(|q| q.head == *t))) {
                return Ok(());
            }
            f(&Subject::new(&rules, costs(kinds[(i % n) as usize], rules.len())), o)
        },
        move |i| {
            let rules: Vec<Rule> = d.get(i / n).into_iter().map(|r| m[r].clone()).chain(b.iter().cloned()).collect();
            format!("{} with costs {:?}", show(&rules), costs(ks[(i % n) as usize], rules.len()))
        },
    )
}

/// Families of grammars by size, each with a word and a wrong word.
fn family(n: usize, kind: usize) -> Option<(Vec<Rule>, Vec<u8>, Vec<u8>)> {
    let v = S::V;
    let rule = |head: u8, tail: Vec<u8>, comp: Vec<Vec<S>>| Rule { head, tail, comp };
    let t = |head: u8, t: u8| Rule { head, tail: vec![], comp: vec![vec![S::T(t)]] };
    Some(match kind {
        // all binary trees
        0 if n <= 7 => (vec![rule(0, vec![0, 0], vec![vec![v(0, 0), v(1, 0)]]), t(0, 0)], vec![0; n], [vec![0; n], vec![1]].concat()),
        // aⁿ cᵐ bⁿ dᵐ with m = n - 1
        1 if n >= 2 && n <= 12 => (
            vec![
                rule(0, vec![1, 2], vec![vec![v(0, 0), v(1, 0), v(0, 1), v(1, 1)]]),
                rule(1, vec![1, 3, 4], vec![vec![v(0, 0), v(1, 0)], vec![v(0, 1), v(2, 0)]]),
                rule(1, vec![3, 4], vec![vec![v(0, 0)], vec![v(1, 0)]]),
                rule(2, vec![2, 5, 6], vec![vec![v(1, 0), v(0, 0)], vec![v(0, 1), v(2, 0)]]),
                rule(2, vec![5, 6], vec![vec![v(0, 0)], vec![v(1, 0)]]),
                t(3, 0),
                t(4, 1),
                t(5, 2),
                t(6, 3),
            ],
            [vec![0; n], vec![2; n - 1], vec![1; n], vec![3; n - 1]].concat(),
            [vec![0; n], vec![2; n - 1], vec![1; n], vec![3; n]].concat(),
        ),
        // n copies of the same tree, for all trees with three leaves
        2 if n <= 4 => (
            vec![
                rule(0, vec![1], vec![(0..n).map(|j| v(0, j)).collect()]),
                rule(1, vec![1, 1], (0..n).map(|j| vec![v(0, j), v(1, j)]).collect()),
                rule(1, vec![2; n], (0..n).map(|j| vec![v(j, 0)]).collect()),
                rule(1, vec![3; n], (0..n).map(|j| vec![v(j, 0)]).collect()),
                t(2, 0),
                t(3, 1),
            ],
            [0, 1, 0].iter().cycle().take(3 * n).copied().collect(),
            [0, 1, 0].iter().cycle().take(3 * n).copied().chain([0]).collect(),
        ),
        // a chain of n nonterminals
        3 => {
            let m = n.min(250);
            let mut rs: Vec<Rule> = (0..m).map(|i| rule(i as u8, vec![1 + i as u8], vec![vec![v(0, 0)]])).collect();
            rs.push(t(m as u8, 0));
            (rs, vec![0], vec![0, 0])
        }
        // components of fan-out n (up to 6) that change their places all the time, in a chain of n
        4 if n <= 6 => {
            let mut rs = vec![rule(0, vec![1], vec![(0..n).map(|j| v(0, j)).collect()])];
            rs.extend((1..=n).map(|i| rule(i as u8, vec![1 + i as u8], (0..n).map(|j| vec![v(0, (j + 1) % n)]).collect())));
            rs.push(rule(1 + n as u8, (0..n).map(|j| 20 + j as u8).collect(), (0..n).map(|j| vec![v(j, 0)]).collect()));
            rs.extend((0..n).map(|j| t(20 + j as u8, j as u8)));
            (rs, (0..n as u8).collect(), (0..n as u8).map(|j| (j + 1) % (n as u8).max(2)).collect())
        }
        // one rule with n nonterminals, in another order
        5 => {
            let m = n.min(200);
            let mut rs = vec![rule(0, (0..m).map(|j| 1 + j as u8).collect(), vec![(0..m).map(|j| v((j * 7 + 3) % m, 0)).collect()])];
            if (0..m).any(|j| m > 1 && m % 7 == 0 && j == 0) {
                return None;
            }
            rs.extend((0..m).map(|j| t(1 + j as u8, (j % 3) as u8)));
            let w: Vec<u8> = (0..m).map(|j| (((j * 7 + 3) % m) % 3) as u8).collect();
            let mut wrong = w.clone();
            wrong[m / 2] = (wrong[m / 2] + 1) % 3;
            (rs, w, wrong)
        }
        // n different terminals for one nonterminal and word length
        6 => {
            let m = n.min(200);
            let mut rs = vec![rule(0, vec![1, 0], vec![vec![v(1, 0), v(0, 0)]]), rule(0, vec![1], vec![vec![v(0, 0)]])];
            rs.extend((0..m).map(|j| t(1, j as u8)));
            let w: Vec<u8> = (0..m.min(40)).map(|j| ((j * 3) % m) as u8).collect();
            (rs, w.clone(), [w, vec![255]].concat())
        }
        // n rules for one nonterminal, two of them for each position of a word of length 4
        7 => {
            let m = n.min(200);
            let mut rs = vec![rule(0, vec![1, 2], vec![vec![v(0, 0), v(1, 0), v(0, 1), v(1, 1)]])];
            rs.push(rule(1, vec![3, 4], vec![vec![v(0, 0)], vec![v(1, 0)]]));
            rs.push(rule(2, vec![4, 3], vec![vec![v(0, 0)], vec![v(1, 0)]]));
            rs.extend((0..m).map(|i| rule(3, vec![5 + i as u8], vec![vec![v(0, 0)]])));
            rs.extend((0..m).map(|i| t(5 + i as u8, (i % 2) as u8)));
            rs.push(t(4, 1));
            (rs, vec![0, 1, 1, 0], vec![0, 1, 1])
        }
        // a right-linear grammar and a word of n symbols
        8 => (
            vec![rule(0, vec![1, 0], vec![vec![v(0, 0), v(1, 0)]]), rule(0, vec![2], vec![vec![v(0, 0)]]), t(1, 0), t(2, 1)],
            [vec![0; n - 1], vec![1]].concat(),
            vec![0; n],
        ),
        _ => return None,
    })
}

const KINDS: usize = 9;

/// Larger grammars and words.
fn large(t: Tier, property: fn(&Subject, &[Vec<u8>], &mut Obs) -> Verdict, most: usize) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=t.pick(20usize, 40)).chain([60, 127, 128, 129, 200, 254, 255, 256, 257, 300]) {
        for kind in 0..KINDS {
            if n <= most && family(n, kind).is_some() {
                cases.push((n, kind));
            }
        }
    }
    Suite::over(
        "large",
        "families of grammars by size n, for all n up to 20 (40) and some up to 300: binary trees (n ≤ 7), two crossing dependencies, \
         n copies of a tree (n ≤ 4), a chain of n nonterminals, rotating components (n ≤ 6), a rule with n nonterminals, n terminals, \
         n rules for one nonterminal, words of n symbols; with a wrong word each",
        cases,
        move |&(n, kind), obs| {
            let (rules, word, wrong) = family(n, kind).unwrap();
            let costs = (0..rules.len() as i64).map(|i| (1 + i % 3) * 60 * UNIT).collect();
            property(&Subject::new(&rules, costs), &[word, wrong], obs)?;
            obs.nontrivial();
            obs.outcome(&(n, kind));
            Ok(())
        },
        |c| format!("{:?} (n, kind)", c),
    )
    .limit(t.pick(60, 300))
}

/// Weights of one, such that chain rules cost nothing: whatever is found is a parse, and if there
/// is one, a parse is found.
fn ones(s: &Subject, max_word: u32, obs: &mut Obs) -> Verdict {
    let Some(g) = s.grammar() else { return Ok(()) };
    let cs = Cs::new(g, 3);
    for w in words_of(max_word) {
        if s.finite {
            continue;
        }
        let (trees, _) = collect(|| all(&cs, &w).take(10), 10, 1000, 0, 0)?;
        let mut seen = std::collections::BTreeSet::new();
        let valid = s.valid(&w);
        for t in trees {
            let d = s.read(&t.cloned()).map_err(|e| format!("word {:?}: {}", w, e))?.1;
            if valid(&d) != Some(0) {
                return Err(format!("word {:?}: {} is not a parse", w, d.show()));
            }
            if !seen.insert(d.clone()) {
                return Err(format!("word {:?}: {} is found for the second time", w, d.show()));
            }
        }
        let context_free = s.rules.iter().all(|r| r.comp.len() == 1);
        if context_free && seen.is_empty() == approximated(&s.rules, &w) {
            return Err(format!("word {:?}: {} parses are found", w, seen.len()));
        }
        obs.step();
        obs.trace();
        obs.outcome(&seen.len());
        if !seen.is_empty() {
            obs.nontrivial();
            obs.note(|| format!("word {:?}: {} parses", w, seen.len()));
        }
    }
    obs.state(&s.prules);
    Ok(())
}

/// More states than there are numbers of 16 bits.
fn many_states(_: Tier) -> Suite {
    Suite::over(
        "many-states",
        "grammars with 65535 to 65540 and 70000 states: S → A_i, A_i → a; without limits and with beams; all parses",
        vec![65_535u32, 65_536, 65_537, 65_540, 70_000],
        |&n, obs| {
            let rule = |head: u32, tail: Vec<u32>, comp: Vec<Vec<VarT<u8>>>, c: i64| rustomata::grammars::pmcfg::PMCFGRule {
                head,
                tail,
                composition: comp.into(),
                weight: Cost(Some(c)),
            };
            let mut rules: Vec<_> = (1..n).map(|i| rule(0, vec![i], vec![vec![VarT::Var(0, 0)]], 1 + (i % 3) as i64)).collect();
            rules.extend((1..n).map(|i| rule(i, vec![], vec![vec![VarT::T(0)]], 1)));
            let g = Lcfrs::new(rules, 0).unwrap();
            let cs = CSRepresentation::new(g, 0);
            for (beam, expected) in [(None, n - 1), (Some(n as usize), n - 1), (Some(65_535), 65_534), (Some(2), 1)] {
                let mut g = cs.build_generator();
                if let Some(b) = beam {
                    g.set_beam(b);
                }
                let found: Vec<_> = g.with_fallback(&[0]).0.map(|t| t.cloned()).collect();
                let mut heads: Vec<u32> = Vec::new();
                let mut last = 0;
                for t in &found {
                    let rules: BTreeMap<_, _> = t.clone().into_iter().collect();
                    let (Some(top), Some(leaf)) = (rules.get(&vec![]), rules.get(&vec![0])) else { return Err("not a tree".into()) };
                    if rules.len() != 2 || top.tail != [leaf.head] || top.head != 0 || top.weight.0.unwrap() < last {
                        return Err(format!("{:?} is found after one with cost {}", rules, last));
                    }
                    last = top.weight.0.unwrap();
                    heads.push(leaf.head);
                }
                heads.sort();
                heads.dedup();
                // with a beam, only an upper bound on what is lost
                if heads.len() != found.len() || found.len() < expected as usize && beam.map_or(true, |b| b >= n as usize) || found.is_empty() && beam != Some(2) {
                    return Err(format!("beam {:?}: {} parses, {} different ones", beam, found.len(), heads.len()));
                }
                obs.step();
                obs.outcome(&(found.len()));
            }
            obs.trace();
            obs.state(&n);
            obs.nontrivial();
            Ok(())
        },
        |n| format!("{} states", n),
    )
}

/// Rules with long right-hand sides for words of one symbol.
fn long_rules() -> (Vec<Rule>, Vec<Rule>) {
    let mut menu = Vec::new();
    let a = 3u8;
    // each symbol is a nonterminal and a component; nonterminals of fan-out 1 are used once for each symbol
    let mut rule = |head: u8, comps: &[&str]| {
        let mut tail = Vec::new();
        let mut fanned: BTreeMap<char, usize> = BTreeMap::new();
        let comp = comps
            .iter()
            .map(|c| {
                c.chars()
                    .map(|s| match s {
                        'a' | 'b' => {
                            tail.push(if s == 'a' { a } else { 1 });
                            S::V(tail.len() - 1, 0)
                        }
                        // D and E are instances of the nonterminal of fan-out two, the small letters their second components
                        _ => {
                            let k = *fanned.entry(s.to_ascii_uppercase()).or_insert_with(|| {
                                tail.push(2);
                                tail.len() - 1
                            });
                            S::V(k, s.is_ascii_lowercase() as usize)
                        }
                    })
                    .collect()
            })
            .collect();
        menu.push(Rule { head, tail, comp });
    };
    for k in 4..=8 {
        rule(0, &[&"a".repeat(k)]);
    }
    for k in 2..=6 {
        rule(1, &[&"a".repeat(k)]);
    }
    for s in ["bb", "bab", "bbb", "aba", "Dd", "Dbd", "Daaaad", "DbaabdE e"] {
        rule(0, &[&s.replace("DbaabdE e", "DEbdaae")]);
    }
    for (i, j) in [(1, 1), (1, 2), (2, 1), (1, 5), (5, 1), (4, 2), (6, 6)] {
        rule(2, &[&"a".repeat(i), &"a".repeat(j)]);
    }
    rule(2, &["Daaaa", "d"]);
    rule(2, &["Da", "aaaad"]);
    rule(2, &["DaEae", "d"]);
    (vec![Rule { head: a, tail: vec![], comp: vec![vec![S::T(0)]] }], menu)
}

type Property = fn(&Subject, &[Vec<u8>], &mut Obs) -> Verdict;

/// The rules P → a (and P → b) for a nonterminal P, and the rules of the menu without others for
/// P and without the initial nonterminal on the right.
pub fn preterminal(fanouts: &[usize], max_symbols: usize, terminals: u8) -> (Vec<Rule>, Vec<Rule>) {
    let p = fanouts.len() as u8 - 1;
    let (base, mut rest): (Vec<Rule>, Vec<Rule>) = menu(fanouts, 2, max_symbols, terminals).into_iter().partition(|r| r.head == p && r.tail.is_empty());
    rest.retain(|r| r.head != p && !r.tail.is_empty() && !r.tail.contains(&0));
    (base, rest)
}

/// Sets of rules in every order.
fn orders(t: Tier, property: Property, kind: usize) -> Suite {
    let ws = words_of(3);
    let (base, menu) = preterminal(&[1, 2, 1], 4, 1);
    sets(
        "orders",
        "grammars in normal form over nonterminals of fan-out 1, 2 and 1, the last one with terminal rules only, rules of at most two nonterminals and four symbols; \
         all orders of the rules; words of up to three symbols",
        (base, menu),
        t.pick(2, 3),
        vec![kind],
        move |s, o| {
            let rules: Vec<_> = s.rules.iter().cloned().zip(s.costs.iter().copied()).collect();
            for p in permutations(&rules) {
                let (rules, costs): (Vec<_>, Vec<_>) = p.into_iter().unzip();
                property(&Subject::new(&rules, costs), &ws, o).map_err(|e| format!("rules {}: {}", show(&rules), e))?;
            }
            Ok(())
        },
    )
}

/// Grammars with finitely many derivations whose weights are equal, in every order of the rules.
fn ties(name: &'static str, rule: &str, menu: (Vec<Rule>, Vec<Rule>), k: usize, words: u32, property: Property) -> Suite {
    let ws: Vec<Vec<u8>> = (1..=words as usize).map(|n| vec![0; n]).collect();
    sets(
        name,
        &format!("{}; finite approximations only; all weights one, and only chain rules of weight one; all orders of the rules; words of up to {} symbols", rule, words),
        menu,
        k,
        vec![4],
        move |s, o| {
            if !s.finite {
                return Ok(());
            }
            for rules in permutations(&s.rules) {
                let chain = |r: &Rule| r.comp.iter().all(|c| matches!(c[..], [S::V(..)]));
                for costs in [vec![0; rules.len()], rules.iter().map(|r| if chain(r) { 0 } else { UNIT }).collect()] {
                    property(&Subject::new(&rules, costs.clone()), &ws, o).map_err(|e| format!("rules {}, costs {:?}: {}", show(&rules), costs, e))?;
                }
            }
            Ok(())
        },
    )
}

fn all_ties(t: Tier, property: Property, less: usize) -> Vec<Suite> {
    let mut menu = menu(&[1, 1, 1], 2, 2, 1);
    menu.retain(|r| (r.head == 2) == r.tail.is_empty() && r.tail != [r.head]);
    vec![
        ties("ties", "all grammars over three nonterminals of fan-out 1, the last one with a terminal rule only", (vec![], menu), t.pick(4, 5), 4, property),
        ties(
            "ties-fan-out-2",
            "all grammars over nonterminals of fan-out 1, 2 and 1, the last one with a terminal rule, rules of at most two nonterminals and four symbols",
            preterminal(&[1, 2, 1], 4, 1),
            t.pick(3, 4) - less,
            4 - less as u32,
            property,
        ),
    ]
}

fn suites(t: Tier, property: Property, kinds: Vec<usize>, words: u32, less: [usize; 2], most: usize) -> Vec<Suite> {
    let text = |s: &str| format!("all grammars in normal form {}, all nonterminals reachable and with rules; words of up to {} symbols and two with an unknown symbol", s, words);
    let k = kinds;
    let ws = words_of(words);
    let run = move |s: &Subject, o: &mut Obs| property(s, &ws, o);
    let orders = orders(t, property, k[0]);
    let long: Vec<Vec<u8>> = (1..=10).chain([12, 13]).map(|n| vec![0; n]).collect();
    let long_kinds = if k == [2] { vec![2, 5, 6] } else { k.clone() };
    // parsing with all limits and storing take longer
    let less_ties = if k == [1] || less[0] == 1 { 1 } else { 0 };
    let none = |m| (vec![], m);
    let mut v = vec![
        large(t, property, most),
        orders,
        sets(
            "long-rules",
            "grammars with rules of four to eight variables, some of fan-out two with up to six variables in a component; words of 1 to 10, 12 and 13 symbols a",
            long_rules(),
            t.pick(4, 5) - (most == 60) as usize,
            long_kinds,
            move |s: &Subject, o: &mut Obs| property(s, &long, o),
        ),
        sets("one", &text("over one nonterminal of fan-out 1, rules of at most three nonterminals"), none(menu(&[1], 3, 3, 2)), 5, k.clone(), run.clone()),
        sets("two", &text("over two nonterminals of fan-out 1, rules of at most two nonterminals"), none(menu(&[1, 1], 2, 2, 2)), t.pick(4, 5), k.clone(), run.clone()),
        sets("fan-out-2", &text("over nonterminals of fan-out 1 and 2, rules of at most two nonterminals and four symbols"), none(menu(&[1, 2], 2, 4, 2)), t.pick(3, 4), k.clone(), run.clone()),
        sets("preterminal", &text("over nonterminals of fan-out 1, 2 and 1, the last one with terminal rules only, rules of at most two nonterminals and four symbols"), preterminal(&[1, 2, 1], 4, 2), t.pick(4, 5) - less[0], k.clone(), run.clone()),
        sets("fan-out-3", &text("over nonterminals of fan-out 1, 3, 2 and 1, the last one with terminal rules only, rules of at most two nonterminals and four symbols"), preterminal(&[1, 3, 2, 1], 4, 1), t.pick(3, 4) - less[1], k.clone(), run.clone()),
        sets("two-of-fan-out-2", &text("over nonterminals of fan-out 1, 2, 2 and 1, the last one with terminal rules only, rules of at most two nonterminals and four symbols"), preterminal(&[1, 2, 2, 1], 4, 1), t.pick(3, 4) - less[1], k.clone(), run.clone()),
        sets("three", &text("over nonterminals of fan-out 1, 2 and 1, rules of at most two nonterminals and three symbols"), none(menu(&[1, 2, 1], 2, 3, 1)), t.pick(3, 4), k, run),
    ];
    v.extend(all_ties(t, property, less_ties));
    v
}

fn c30(t: Tier) -> Vec<Suite> {
    let mut v = suites(t, parses, vec![3], t.pick(4, 5), [0, 0], usize::MAX);
    v.push(sets("unit-weights", "all grammars over three nonterminals of fan-out 1 with two binary and two terminal rules and chain rules of weight one, whose parses are infinitely many; the first ten parses; words of up to three symbols", {
        let (base, mut rest) = (vec![], menu(&[1, 1, 1], 2, 2, 1));
        rest.retain(|r| r.tail.len() < 2 || r.tail[0] == 2 && r.tail[1] == 2);
        (base, rest)
    }, t.pick(5, 6), vec![4], |s, o| ones(s, 3, o)));
    v.push(sets("unit-weights-fan-out-2", "all grammars over nonterminals of fan-out 1, 2 and 1, the last one with terminal rules only, rules of weight one and of at most two nonterminals and four symbols, whose context-free approximation is infinite; the first ten parses; words of up to three symbols", preterminal(&[1, 2, 1], 4, 1), t.pick(3, 4), vec![4], |s, o| ones(s, 3, o)));
    v
}

fn c32(t: Tier) -> Vec<Suite> {
    let mut v = suites(t, limits, vec![1], t.pick(3, 4), [0, 1], 60);
    v.push(many_states(t));
    v
}

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C30", assumptions: vec![], build: c30 },
        Check { id: "C31", assumptions: vec![], build: |t| suites(t, order, vec![2], 4, [0, 1], 60) },
        Check { id: "C32", assumptions: vec![], build: c32 },
        Check { id: "C33", assumptions: vec![], build: |t| suites(t, stored, vec![3], 3, [1, 1], 60) },
    ]
}
