//! Searching a graph: every small graph, every list of initial nodes, every strategy.

use crate::c01_agenda::W;
use mc_common::enumerate::{digits, words};
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use search::agenda::{binary_heap, limited_heap, weighted::Weighted, Agenda};
use search::Search;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug)]
struct Graph {
    succ: Vec<Vec<u16>>,
    initial: Vec<u16>,
    weight: Vec<u32>,
}

/// A node together with the number of its occurrence, so that two visits of the same node can
/// be told apart in searches that do not filter.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Node {
    n: u16,
    w: u32,
}

impl Weighted for Node {
    type Weight = W;
    fn get_weight(&self) -> W {
        W(self.w)
    }
}

impl Graph {
    fn node(&self, n: u16) -> Node {
        Node { n, w: self.weight[n as usize] }
    }
    fn initials(&self) -> Vec<Node> {
        self.initial.iter().map(|&n| self.node(n)).collect()
    }
    fn successors(&self, n: u16) -> Vec<Node> {
        self.succ[n as usize].iter().map(|&m| self.node(m)).collect()
    }
    fn reachable(&self) -> BTreeSet<u16> {
        let mut seen: BTreeSet<u16> = self.initial.iter().cloned().collect();
        let mut todo: Vec<u16> = seen.iter().cloned().collect();
        while let Some(n) = todo.pop() {
            for &m in &self.succ[n as usize] {
                if seen.insert(m) {
                    todo.push(m)
                }
            }
        }
        seen
    }
    fn distances(&self) -> BTreeMap<u16, usize> {
        let mut d = BTreeMap::new();
        let mut layer: BTreeSet<u16> = self.initial.iter().cloned().collect();
        let mut i = 0;
        while !layer.is_empty() {
            for &n in &layer {
                d.entry(n).or_insert(i);
            }
            layer = layer
                .iter()
                .flat_map(|&n| self.succ[n as usize].iter().cloned())
                .filter(|m| !d.contains_key(m))
                .collect();
            i += 1;
        }
        d
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Strategy {
    Dfs,
    Bfs,
    Weighted,
}
const STRATEGIES: [Strategy; 3] = [Strategy::Dfs, Strategy::Bfs, Strategy::Weighted];

/// The groups of nodes found together, in the order in which they were found.
struct Frontier {
    strategy: Strategy,
    groups: VecDeque<Vec<Node>>,
}

impl Frontier {
    fn add(&mut self, ns: Vec<Node>) {
        if !ns.is_empty() {
            self.groups.push_back(ns)
        }
    }
    /// Is it the turn of `n`?  Nodes in `visited` do not count.
    fn take(&mut self, n: Node, visited: Option<&BTreeSet<u16>>) -> Verdict {
        let live = |m: &Node| visited.is_none_or(|v| !v.contains(&m.n));
        for g in self.groups.iter_mut() {
            g.retain(|m| live(m))
        }
        self.groups.retain(|g| !g.is_empty());
        let candidates: Vec<usize> = match self.strategy {
            Strategy::Dfs => self.groups.len().checked_sub(1).into_iter().collect(),
            Strategy::Bfs => (0..1.min(self.groups.len())).collect(),
            Strategy::Weighted => (0..self.groups.len()).collect(),
        };
        if self.strategy == Strategy::Weighted {
            let best = self.groups.iter().flatten().map(|m| m.w).max();
            if Some(n.w) != best {
                return Err(format!("{:?} comes before a node of weight {:?}", n, best));
            }
        }
        for g in candidates.into_iter().rev() {
            if let Some(p) = self.groups[g].iter().position(|m| *m == n) {
                self.groups[g].remove(p);
                return Ok(());
            }
        }
        Err(format!("{:?} is not its turn: open groups {:?}", n, self.groups))
    }
    fn open(&self, visited: Option<&BTreeSet<u16>>) -> bool {
        self.groups
            .iter()
            .flatten()
            .any(|m| visited.is_none_or(|v| !v.contains(&m.n)))
    }
}

/// The first `most` elements (all, if there are fewer) and whether it ended.
fn take<I: Iterator<Item = Node>>(mut it: I, most: usize) -> (Vec<Node>, bool) {
    let mut v = Vec::new();
    while v.len() < most {
        match it.next() {
            Some(n) => v.push(n),
            None => return (v, true),
        }
    }
    (v, false)
}

fn check_order(
    g: &Graph,
    strategy: Strategy,
    unique: bool,
    got: &[Node],
    ended: bool,
    obs: &mut Obs,
) -> Verdict {
    let mut f = Frontier { strategy, groups: VecDeque::new() };
    let mut visited = BTreeSet::new();
    f.add(g.initials());
    for &n in got {
        if unique && visited.contains(&n.n) {
            return Err(format!("{:?} is enumerated twice", n));
        }
        f.take(n, if unique { Some(&visited) } else { None })?;
        visited.insert(n.n);
        f.add(g.successors(n.n));
        obs.step();
    }
    if ended && f.open(if unique { Some(&visited) } else { None }) {
        return Err(format!("the search ended, but {:?} are open", f.groups));
    }
    Ok(())
}

fn run(g: &Graph, obs: &mut Obs) -> Verdict {
    let reachable = g.reachable();
    let distances = g.distances();
    let most = 10;
    let succ = |n: &Node| g.successors(n.n);
    obs.state(&(&g.succ, &g.initial, &g.weight));
    for s in STRATEGIES {
        let ctx = |e: String| format!("{:?}: {}", s, e);
        // all visits
        let (got, ended) = match s {
            Strategy::Dfs => take(Search::dfs(g.initials(), succ), most),
            Strategy::Bfs => take(Search::bfs(g.initials(), succ), most),
            Strategy::Weighted => take(Search::weighted(g.initials(), succ), most),
        };
        check_order(g, s, false, &got, ended, obs).map_err(ctx)?;
        obs.trace();
        // only first visits
        let limit = reachable.len() + 3;
        let (got, ended) = match s {
            Strategy::Dfs => take(Search::dfs(g.initials(), succ).uniques(), limit),
            Strategy::Bfs => take(Search::bfs(g.initials(), succ).uniques(), limit),
            Strategy::Weighted => take(Search::weighted(g.initials(), succ).uniques(), limit),
        };
        let uctx = |e: String| format!("{:?} without repetitions gives {:?}: {}", s, got, e);
        check_order(g, s, true, &got, ended, obs).map_err(uctx)?;
        let set: BTreeSet<u16> = got.iter().map(|n| n.n).collect();
        if set != reachable || got.len() != reachable.len() {
            return Err(uctx(format!("reachable are {:?}", reachable)));
        }
        if s == Strategy::Bfs {
            for w in got.windows(2) {
                if distances[&w[0].n] > distances[&w[1].n] {
                    return Err(uctx("not in the order of the distances".into()));
                }
            }
        }
        obs.trace();
        obs.outcome(&(s as u16, got.iter().map(|n| n.n).collect::<Vec<_>>()));
        if got.len() >= 3 {
            obs.nontrivial();
            obs.note(|| format!("{:?} visits {:?}", s, got.iter().map(|n| n.n).collect::<Vec<_>>()));
        }
        // the same with an agenda that was filled by hand
        if s == Strategy::Dfs {
            let mut a: Vec<Node> = Vec::new();
            for n in g.initials() {
                Agenda::push(&mut a, n)
            }
            let (again, ended2) = take(Search::with_agenda(a, succ).uniques(), limit);
            check_order(g, s, true, &again, ended2, obs).map_err(uctx)?;
        }
        if s == Strategy::Weighted {
            let mut a = binary_heap::weighted::BinaryHeap::new();
            for n in g.initials() {
                Agenda::push(&mut a, n)
            }
            let (again, ended2) = take(Search::with_agenda(a, succ).uniques(), limit);
            check_order(g, s, true, &again, ended2, obs).map_err(uctx)?;
        }
    }
    // a bounded frontier only ever visits reachable nodes, heaviest first among what it holds,
    // and loses nothing while it is not full
    for cap in [1usize, 2, 5000] {
        let mut a = limited_heap::weighted::LimitedHeap::with_capacity(cap);
        for n in g.initials() {
            a.push(n);
        }
        let (got, ended) = take(Search::with_agenda(a, succ).uniques(), reachable.len() + 3);
        let mut seen = BTreeSet::new();
        for n in &got {
            if !reachable.contains(&n.n) || !seen.insert(n.n) {
                return Err(format!("with a frontier of {}: {:?}", cap, got));
            }
        }
        if !ended {
            return Err(format!("with a frontier of {}: no end", cap));
        }
        if cap == 5000 {
            check_order(g, Strategy::Weighted, true, &got, ended, obs)
                .map_err(|e| format!("with a frontier of 5000: {}", e))?;
        }
        obs.trace();
    }
    Ok(())
}

/// 3 nodes, successor *lists* (with repetitions), initial lists (with repetitions).
fn lists(tier: Tier) -> Suite {
    let succ = words(&[0u16, 1, 2], 2);
    let initial = words(&[0u16, 1, 2], tier.pick(2, 3));
    let weights = [vec![10, 20, 30], vec![30, 20, 10], vec![20, 20, 10]];
    let radices = [
        weights.len() as u64,
        succ.len() as u64,
        succ.len() as u64,
        succ.len() as u64,
        initial.len() as u64,
    ];
    let n = radices.iter().product();
    let graph = std::sync::Arc::new(move |i: u64| {
        let d = digits(i, &radices);
        Graph {
            succ: vec![succ[d[1]].clone(), succ[d[2]].clone(), succ[d[3]].clone()],
            initial: initial[d[4]].clone(),
            weight: weights[d[0]].clone(),
        }
    });
    let g2 = graph.clone();
    Suite::new(
        "lists",
        "all graphs with 3 nodes whose successor lists have length at most 2 (repetitions \
         allowed), all initial lists, three weightings × depth first, breadth first, by weight, \
         bounded × all visits and first visits; non-trivial: all three nodes are reached",
        n,
        move |i, o| run(&graph(i), o),
        move |i| format!("{:?}", g2(i)),
    )
}

/// 4 nodes, successor sets (in ascending or descending order).
fn sets(tier: Tier) -> Suite {
    let initials: Vec<Vec<u16>> = tier.pick(
        vec![vec![0], vec![0, 1], vec![1, 0, 1]],
        vec![vec![0], vec![0, 1], vec![1, 0], vec![1, 0, 1], vec![0, 1, 2, 3], vec![3, 3, 0]],
    );
    let weights = tier.pick(
        vec![vec![10, 40, 20, 30]],
        vec![vec![10, 40, 20, 30], vec![40, 30, 20, 10], vec![20, 20, 30, 20]],
    );
    let radices = [1 << 16, 2, weights.len() as u64, initials.len() as u64];
    let n = radices.iter().product();
    let graph = std::sync::Arc::new(move |i: u64| {
        let d = digits(i, &radices);
        let succ = (0..4)
            .map(|k| {
                let mut v: Vec<u16> =
                    (0..4).filter(|m| d[0] >> (k * 4 + m) & 1 == 1).map(|m| m as u16).collect();
                if d[1] == 1 {
                    v.reverse()
                }
                v
            })
            .collect();
        Graph { succ, initial: initials[d[3]].clone(), weight: weights[d[2]].clone() }
    });
    let g2 = graph.clone();
    Suite::new(
        "sets",
        "all graphs with 4 nodes (successors in ascending and in descending order), some lists \
         of initial nodes; non-trivial: at least three nodes are reached",
        n,
        move |i, o| run(&graph(i), o),
        move |i| format!("{:?}", g2(i)),
    )
}

/// Long chains, wide stars, full graphs: sizes that the exhaustive part does not reach.
fn shapes() -> Suite {
    let mut cases = Vec::new();
    for n in [1usize, 5, 9, 20, 40, 300] {
        let all: Vec<u16> = (0..n as u16).collect();
        let weight: Vec<u32> = (0..n as u32).map(|i| (i * 13) % 7 * 10 + 10).collect();
        let chain = (0..n).map(|i| if i + 1 < n { vec![i as u16 + 1] } else { vec![] }).collect();
        let ring = (0..n).map(|i| vec![((i + 1) % n) as u16]).collect();
        let star = (0..n).map(|i| if i == 0 { all.clone() } else { vec![] }).collect();
        let full = (0..n).map(|_| all.clone()).collect();
        let tree = (0..n)
            .map(|i| {
                [2 * i + 1, 2 * i + 2].iter().filter(|&&j| j < n).map(|&j| j as u16).collect()
            })
            .collect();
        let back = (0..n).map(|i| (0..=i).rev().map(|j| j as u16).collect()).collect();
        let dense = n <= 40;
        for (name, succ) in [
            ("chain", chain),
            ("ring", ring),
            ("star", star),
            ("full", full),
            ("tree", tree),
            ("back", back),
        ] {
            if !dense && (name == "full" || name == "back") {
                continue;
            }
            for initial in [vec![0u16], vec![0, 0], all.clone(), vec![(n - 1) as u16, 0]] {
                cases.push((
                    name,
                    Graph { succ: Clone::clone(&succ), initial, weight: weight.clone() },
                ));
            }
        }
    }
    Suite::over(
        "shapes",
        "chains, rings, stars, full graphs, trees and graphs with all back edges of up to 40 nodes, and the sparse ones of 300",
        cases,
        |(_, g), o| run(g, o),
        |(name, g): &(&str, Graph)| format!("{} of {} from {:?}", name, g.succ.len(), g.initial),
    )
}

/// All graphs with 3 nodes as a part of larger ones.
fn parts(tier: Tier) -> Suite {
    let sizes: Vec<usize> = tier.pick(vec![2, 6, 13], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 32, 33]);
    let radices = [512, sizes.len() as u64, 4, 2, 3];
    let n = radices.iter().product();
    let graph = std::sync::Arc::new(move |i: u64| {
        let d = digits(i, &radices);
        let k = sizes[d[1]];
        let mut succ: Vec<Vec<u16>> = (0..3).map(|a| (0..3u16).filter(|b| d[0] >> (a * 3 + *b as usize) & 1 == 1).collect()).collect();
        let first = 3u16;
        let last = 2 + k as u16;
        // the larger part leads into the small one …
        match d[2] {
            0 => Extend::extend(&mut succ, (0..k as u16).map(|j| if j + 1 < k as u16 { vec![first + j + 1] } else { vec![0, 1] })),
            1 => Extend::extend(&mut succ, (0..k as u16).map(|j| if j == 0 { (first + 1..=last).chain([0]).collect() } else { vec![] })),
            2 => Extend::extend(&mut succ, (0..k as u16).map(|j| vec![first + (j + 1) % k as u16, 2])),
            _ => Extend::extend(&mut succ, (0..k as u16).map(|j| [2 * j + 1, 2 * j + 2].iter().map(|c| if *c < k as u16 { first + c } else { c % 3 }).collect())),
        }
        // … and may be reached from there
        if d[3] == 1 {
            succ[1].push(first);
            succ[2].insert(0, last);
        }
        let weight = (0..succ.len() as u32).map(|j| match d[4] { 0 => 10 + j, 1 => 90 - j, _ => 10 + j * 17 % 40 }).collect();
        Graph { succ, initial: vec![first], weight }
    });
    let g2 = graph.clone();
    Suite::new(
        "parts",
        "all graphs with 3 nodes behind chains, stars, rings and binary trees of several sizes (and with edges back into these), rising, falling \
         and mixed weights",
        n,
        move |i, o| run(&graph(i), o),
        move |i| format!("{:?}", g2(i)),
    )
}

pub fn check() -> Check {
    Check {
        id: "C02",
        assumptions: vec![
            "the order among nodes that were found together is left open (and, for the search by \
             weight, among nodes of equal weight)",
        ],
        build: |t| vec![shapes(), lists(t), sets(t), parts(t)],
    }
}
