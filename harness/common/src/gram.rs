//! Reference models of grammars: rules over numbered symbols, enumeration of rules, and
//! enumeration of all derivations up to a size.  Nothing in here uses the code under test.

use std::collections::BTreeMap;
use std::rc::Rc;

/// A symbol in a composition: a terminal, or a variable for a component of a nonterminal.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum S {
    T(u8),
    V(usize, usize),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rule {
    pub head: u8,
    pub tail: Vec<u8>,
    pub comp: Vec<Vec<S>>,
}

impl Rule {
    pub fn show(&self) -> String {
        let letter = |first: u8, n: u8| if n < 26 { ((first + n) as char).to_string() } else { format!("{}{}", first as char, n) };
        let n = |n: &u8| if *n == 0 { "S".to_string() } else { letter(b'A', n - 1) };
        let comps: Vec<String> = self
            .comp
            .iter()
            .map(|c| {
                let syms: Vec<String> = c
                    .iter()
                    .map(|s| match s {
                        S::T(t) => letter(b'a', *t),
                        S::V(i, j) => format!("{}.{}", i, j),
                    })
                    .collect();
                format!("[{}]", syms.join(" "))
            })
            .collect();
        format!("{} → {} ({})", n(&self.head), comps.join(""), self.tail.iter().map(n).collect::<Vec<_>>().join(","))
    }
}

pub fn show(rules: &[Rule]) -> String {
    rules.iter().map(|r| r.show()).collect::<Vec<_>>().join("; ")
}

/// What compositions to enumerate.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    /// Each variable at most once.
    pub linear: bool,
    /// Each variable at least once.
    pub nondeleting: bool,
    /// Components of each nonterminal appear in order, nonterminals in order of first use.
    pub ordered: bool,
    pub max_terminals: usize,
    pub max_symbols: usize,
    pub terminals: u8,
    /// No empty component.
    pub epsilon_free: bool,
}

impl Shape {
    pub const LCFRS: Shape =
        Shape { linear: true, nondeleting: true, ordered: false, max_terminals: 1, max_symbols: 6, terminals: 2, epsilon_free: false };
}

/// All compositions with `fanout` components over the variables of nonterminals with the given
/// fan-outs.
pub fn compositions(fanout: usize, tail: &[usize], sh: &Shape) -> Vec<Vec<Vec<S>>> {
    let vars: Vec<S> = tail.iter().enumerate().flat_map(|(i, &f)| (0..f).map(move |j| S::V(i, j))).collect();
    let mut strings: Vec<Vec<S>> = vec![vec![]];
    let mut all: Vec<Vec<S>> = vec![];
    while let Some(s) = strings.pop() {
        if s.len() < sh.max_symbols {
            let ts = s.iter().filter(|x| matches!(x, S::T(_))).count();
            if ts < sh.max_terminals {
                for t in 0..sh.terminals {
                    let mut s = s.clone();
                    s.push(S::T(t));
                    strings.push(s);
                }
            }
            for &v in &vars {
                if sh.linear && s.contains(&v) {
                    continue;
                }
                if sh.ordered {
                    let S::V(i, j) = v else { unreachable!() };
                    let before = |w: S| s.contains(&w);
                    if (0..j).any(|k| !before(S::V(i, k))) || (0..i).any(|k| tail[k] > 0 && !before(S::V(k, 0))) {
                        continue;
                    }
                }
                let mut s = s.clone();
                s.push(v);
                strings.push(s);
            }
        }
        all.push(s);
    }
    all.sort_by_key(|s| (s.len(), s.clone()));
    if sh.nondeleting {
        all.retain(|s| vars.iter().all(|v| s.contains(v)));
    }
    // cut each string into components
    let mut out = Vec::new();
    for s in all {
        fn cut(s: &[S], f: usize, sh: &Shape, acc: &mut Vec<Vec<S>>, out: &mut Vec<Vec<Vec<S>>>) {
            if f == 0 {
                if s.is_empty() {
                    out.push(acc.clone());
                }
                return;
            }
            for k in 0..=s.len() {
                if k == 0 && sh.epsilon_free {
                    continue;
                }
                if f == 1 && k < s.len() {
                    continue;
                }
                acc.push(s[..k].to_vec());
                cut(&s[k..], f - 1, sh, acc, out);
                acc.pop();
            }
        }
        cut(&s, fanout, sh, &mut Vec::new(), &mut out);
    }
    out
}

/// All rules for nonterminals `0..fanouts.len()` with at most `max_tail` nonterminals.
pub fn all_rules(fanouts: &[usize], max_tail: u32, sh: &Shape) -> Vec<Rule> {
    let mut out = Vec::new();
    let seq = crate::enumerate::Sequences::new(fanouts.len(), max_tail);
    for head in 0..fanouts.len() {
        for i in 0..seq.len() {
            let tail: Vec<u8> = seq.get(i).into_iter().map(|n| n as u8).collect();
            let fs: Vec<usize> = tail.iter().map(|&n| fanouts[n as usize]).collect();
            for comp in compositions(fanouts[head], &fs, sh) {
                out.push(Rule { head: head as u8, tail: tail.clone(), comp });
            }
        }
    }
    out
}

/// A derivation: the number of a rule and the derivations of its nonterminals.
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Clone)]
pub struct Der {
    pub rule: usize,
    pub kids: Vec<Rc<Der>>,
}

impl Der {
    pub fn size(&self) -> usize {
        1 + self.kids.iter().map(|k| k.size()).sum::<usize>()
    }
    /// The rules in document order with their addresses.
    pub fn nodes(&self) -> Vec<(Vec<usize>, usize)> {
        let mut out = vec![(vec![], self.rule)];
        for (i, k) in self.kids.iter().enumerate() {
            for (mut a, r) in k.nodes() {
                a.insert(0, i);
                out.push((a, r));
            }
        }
        out
    }
    pub fn show(&self) -> String {
        if self.kids.is_empty() {
            format!("{}", self.rule)
        } else {
            format!("{}({})", self.rule, self.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" "))
        }
    }
    pub fn rules(&self) -> Vec<usize> {
        self.nodes().into_iter().map(|(_, r)| r).collect()
    }
}

/// The value of a derivation: the strings of its components.
pub fn value(rules: &[Rule], d: &Der) -> Vec<Vec<u8>> {
    let kids: Vec<Vec<Vec<u8>>> = d.kids.iter().map(|k| value(rules, k)).collect();
    rules[d.rule]
        .comp
        .iter()
        .map(|c| {
            let mut out = Vec::new();
            for s in c {
                match *s {
                    S::T(t) => out.push(t),
                    S::V(i, j) => out.extend(&kids[i][j]),
                }
            }
            out
        })
        .collect()
}

/// All derivations with at most `max` nodes, for each nonterminal by number of nodes:
/// `result[nonterminal][size]`.
pub fn derivations(rules: &[Rule], max: usize) -> BTreeMap<u8, Vec<Vec<Rc<Der>>>> {
    let mut table: BTreeMap<u8, Vec<Vec<Rc<Der>>>> = BTreeMap::new();
    for r in rules {
        table.entry(r.head).or_insert_with(|| vec![vec![]; max + 1]);
        for n in &r.tail {
            table.entry(*n).or_insert_with(|| vec![vec![]; max + 1]);
        }
    }
    for size in 1..=max {
        for (i, r) in rules.iter().enumerate() {
            let mut found = Vec::new();
            fill(&table, &r.tail, size - 1, &mut Vec::new(), &mut |kids| found.push(Rc::new(Der { rule: i, kids: kids.to_vec() })));
            table.get_mut(&r.head).unwrap()[size].extend(found);
        }
    }
    table
}

fn fill(table: &BTreeMap<u8, Vec<Vec<Rc<Der>>>>, tail: &[u8], size: usize, acc: &mut Vec<Rc<Der>>, f: &mut dyn FnMut(&[Rc<Der>])) {
    match tail.split_first() {
        None => {
            if size == 0 {
                f(acc)
            }
        }
        Some((n, rest)) => {
            if size < tail.len() {
                return;
            }
            let most = size - rest.len();
            for k in 1..=most {
                for d in &table[n][k] {
                    acc.push(d.clone());
                    fill(table, rest, size - k, acc, f);
                    acc.pop();
                }
            }
        }
    }
}

/// All derivations of nonterminal `n` with at most `max` nodes.
pub fn derivations_of(rules: &[Rule], n: u8, max: usize) -> Vec<Rc<Der>> {
    derivations(rules, max).remove(&n).map_or(vec![], |v| v.into_iter().flatten().collect())
}
