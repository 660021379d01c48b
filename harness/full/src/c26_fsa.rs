//! Finite-state automata: runs against paths; beam search.

use crate::c24_cfg::{costs, words_of};
use crate::parse::{collect, compare, Cost, End, large_sizes, open_at_most, widths_around, with_open, LARGE, WIDTHS};
use mc_common::enumerate::Choices;
use mc_common::{Obs, Suite, Tier, Verdict};
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::recognisable::automaton::{recognise, recognise_beam, Automaton};
use rustomata::recognisable::{Item, Transition};
use std::collections::BTreeMap;
use std::sync::Arc;

/// From, word, to.
pub type Arrow = (u8, Vec<u8>, u8);
pub type Fsa = FiniteStateAutomaton<u8, u8, Cost>;
type Run = Item<u8, FiniteStateInstruction<u8>, u8, Cost>;

pub fn instruction(p: u8, q: u8) -> FiniteStateInstruction<u8> {
    format!("{} → {}", p, q).parse().expect("a finite-state instruction")
}

pub fn build(arrows: &[Arrow], costs: &[i64], initial: u8, finals: &[u8]) -> Fsa {
    FiniteStateAutomaton::new(
        arrows.iter().zip(costs).map(|((p, w, q), c)| Transition { word: w.clone(), weight: Cost(Some(*c)), instruction: instruction(*p, *q) }),
        initial,
        finals.iter().copied(),
    )
}

fn states(arrows: &[Arrow]) -> usize {
    1 + arrows.iter().flat_map(|(p, _, q)| [*p, *q]).max().unwrap_or(0) as usize
}

/// Are there no cycles that read nothing?
fn finite(arrows: &[Arrow]) -> bool {
    let n = states(arrows);
    let mut reach = vec![vec![false; n]; n];
    for (p, w, q) in arrows {
        if w.is_empty() {
            reach[*p as usize][*q as usize] = true;
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                if reach[i][k] && reach[k][j] {
                    reach[i][j] = true;
                }
            }
        }
    }
    (0..n).all(|i| !reach[i][i])
}

type Expected = BTreeMap<Vec<usize>, i64>;

/// All accepting paths of at most `bound` cost for a word.
fn paths(arrows: &[Arrow], costs: &[i64], initial: u8, finals: &[u8], word: &[u8], bound: i64) -> Expected {
    let mut out = Expected::new();
    let mut stack = vec![(initial, 0, 0, vec![])];
    while let Some((q, read, c, path)) = stack.pop() {
        for (i, (from, w, to)) in arrows.iter().enumerate() {
            if *from == q && word[read..].starts_with(w) && c + costs[i] <= bound {
                let mut path = path.clone();
                path.push(i);
                stack.push((*to, read + w.len(), c + costs[i], path));
            }
        }
        if read == word.len() && finals.contains(&q) {
            out.insert(path, c);
        }
    }
    out
}

fn valid(arrows: &[Arrow], initial: u8, finals: &[u8], word: &[u8], path: &[usize]) -> bool {
    let mut at = (initial, 0);
    for i in path {
        let (p, w, q) = &arrows[*i];
        if *p != at.0 || !word[at.1..].starts_with(w) {
            return false;
        }
        at = (*q, at.1 + w.len());
    }
    at.1 == word.len() && finals.contains(&at.0)
}

fn path(Item(conf, run): &Run, arrows: &[Arrow], costs: &[i64]) -> Result<Vec<usize>, String> {
    if !conf.word.is_empty() {
        return Err(format!("a run ends with {:?} still to be read", conf.word));
    }
    let run: Vec<Transition<_, _, Cost>> = run.clone().into();
    let path = run
        .iter()
        .map(|t| {
            (0..arrows.len())
                .find(|&i| {
                    let (p, w, q) = &arrows[i];
                    t.word == *w && t.weight == Cost(Some(costs[i])) && t.instruction == instruction(*p, *q)
                })
                .ok_or_else(|| format!("{:?} is no transition", t))
        })
        .collect::<Result<Vec<_>, _>>()?;
    if let Some(i) = path.last() {
        if conf.storage != arrows[*i].2 {
            return Err(format!("the run leads to {}, not to {}", arrows[*i].2, conf.storage));
        }
    }
    Ok(path)
}

const BUDGET: u64 = 200_000;

fn run(arrows: &[Arrow], costs: &[i64], initial: u8, finals: &[u8], bound: i64, max_word: u32, obs: &mut Obs) -> Verdict {
    let a = build(arrows, costs, initial, finals);
    if a.initial() != initial {
        return Err(format!("the initial state is {}", a.initial()));
    }
    let mut ts: Vec<(u8, Vec<u8>, u8, i64)> = Vec::new();
    for t in a.list_transitions() {
        let s = t.instruction.to_string();
        let v: Vec<u8> = s.trim_matches(|c| c == '(' || c == ')').split(" → ").map(|x| x.parse().unwrap()).collect();
        ts.push((v[0], t.word, v[1], t.weight.0.unwrap()));
    }
    ts.sort();
    let mut e: Vec<_> = arrows.iter().zip(costs).map(|((p, w, q), c)| (*p, w.clone(), *q, *c)).collect();
    e.sort();
    if ts != e {
        return Err(format!("the transitions are {:?}", ts));
    }
    let fin = finite(arrows);
    for w in words_of(max_word) {
        let e = paths(arrows, costs, initial, finals, &w, bound);
        let (n, budget, more) = if fin { (usize::MAX, BUDGET * 10, 0) } else { (e.len(), BUDGET, 1) };
        let (found, end) = collect(|| recognise(&a, w.clone()), n, budget, more, 1000)?;
        let mut runs = Vec::new();
        for item in &found {
            runs.push((item.0.weight, path(item, arrows, costs).map_err(|e| format!("word {:?}: {}", w, e))?));
        }
        if fin && end != End::Done {
            return Err(format!("word {:?}: the search does not end", w));
        }
        compare(&e, bound, &runs, end, true, &|p: &Vec<usize>| {
            if valid(arrows, initial, finals, &w, p) { Some(p.iter().map(|i| costs[*i]).sum()) } else { None }
        })
        .map_err(|e| format!("word {:?}: {}", w, e))?;
        obs.step();
        obs.trace();
        obs.outcome(&(runs.len(), w.len(), runs.first().map(|r| r.0)));
        if runs.len() > 1 {
            obs.nontrivial();
            obs.note(|| format!("word {:?} has {} runs", w, runs.len()));
        }
    }
    obs.state(&(arrows, initial, finals));
    Ok(())
}

fn beams(arrows: &[Arrow], costs: &[i64], finals: &[u8], bound: i64, words: &[Vec<u8>], widths: &[(usize, bool)], obs: &mut Obs) -> Verdict {
    let a = build(arrows, costs, 0, finals);
    let fin = finite(arrows);
    for w in words {
        let e = paths(arrows, costs, 0, finals, &w, bound);
        let mut counts = Vec::new();
        let widths = with_open(widths, if fin { open_at_most(&a, w, 3000) } else { None });
        for &(beam, wide) in &widths {
            let (n, budget, more) = if fin { (usize::MAX, BUDGET * 10, 0) } else if wide { (e.len(), BUDGET, 1) } else { (e.len() + 1, 2000, 0) };
            let (found, end) = collect(|| recognise_beam(&a, beam, w.clone()), n, budget, more, 1000)?;
            let mut runs = Vec::new();
            for item in &found {
                runs.push((item.0.weight, path(item, arrows, costs).map_err(|e| format!("word {:?}, beam {}: {}", w, beam, e))?));
            }
            if fin && end != End::Done {
                return Err(format!("word {:?}, beam {}: the search does not end", w, beam));
            }
            if !wide {
                runs.sort_by(|a, b| b.0.cmp(&a.0));
            }
            compare(&e, bound, &runs, end, wide, &|p: &Vec<usize>| {
                if valid(arrows, 0, finals, &w, p) { Some(p.iter().map(|i| costs[*i]).sum()) } else { None }
            })
            .map_err(|e| format!("word {:?}, beam {}: {}", w, beam, e))?;
            obs.step();
            counts.push(runs.len());
        }
        obs.trace();
        obs.outcome(&counts);
        if counts[1] > 0 && counts[1] < *counts.last().unwrap() {
            obs.nontrivial();
            obs.note(|| format!("word {:?}: {:?} runs with beams {:?}", w, counts, widths));
        }
    }
    obs.state(&(arrows, finals));
    Ok(())
}

pub fn arrows(states: u8, words: &[&[u8]]) -> Vec<Arrow> {
    let mut v = Vec::new();
    for p in 0..states {
        for w in words {
            for q in 0..states {
                v.push((p, w.to_vec(), q));
            }
        }
    }
    v
}

fn automata(
    name: &'static str,
    rule: &str,
    menu: Vec<Arrow>,
    k: usize,
    ends: Vec<(u8, Vec<u8>)>,
    kind: usize,
    f: impl Fn(&[Arrow], &[i64], u8, &[u8], &mut Obs) -> Verdict + Send + Sync + 'static,
) -> Suite {
    let c = Choices::new(menu.len(), k);
    let menu = Arc::new(menu);
    let (m, d) = (menu.clone(), c.clone());
    let n = ends.len() as u64;
    let es = ends.clone();
    Suite::new(
        name,
        format!("{} (sets of at most {} of {} transitions × {} initial and lists of final states)", rule, k, menu.len(), n),
        c.len() * n,
        move |i, o| {
            let arrows: Vec<Arrow> = c.get(i / n).into_iter().map(|r| menu[r].clone()).collect();
            let (ini, fin) = &ends[(i % n) as usize];
            f(&arrows, &costs(kind, arrows.len()), *ini, fin, o)
        },
        move |i| {
            let arrows: Vec<Arrow> = d.get(i / n).into_iter().map(|r| m[r].clone()).collect();
            let (ini, fin) = &es[(i % n) as usize];
            format!("from {} to {:?} by {:?} with costs {:?}", ini, fin, arrows, costs(kind, arrows.len()))
        },
    )
}

/// The same transition several times, with different weights.
fn parallel(tier: Tier) -> Suite {
    let menu: Vec<Arrow> = vec![(0, vec![0], 1), (0, vec![0], 0), (1, vec![1], 0), (1, vec![], 0)];
    let n = tier.pick(2u64, 3);
    let total = (n + 1).pow(menu.len() as u32);
    let get = move |i: u64| -> Vec<Arrow> {
        let mut v = Vec::new();
        let mut i = i;
        for a in &menu {
            for _ in 0..i % (n + 1) {
                v.push(a.clone());
            }
            i /= n + 1;
        }
        v
    };
    let g = get.clone();
    Suite::new(
        "parallel",
        "all multisets of four transitions, each up to 2 (3) times with different weights: every one counts; words of up to four \
         symbols; non-trivial: two runs",
        total,
        move |i, o| {
            let a = get(i);
            let costs: Vec<i64> = (1..=a.len() as i64).collect();
            run(&a, &costs, 0, &[0], 9, 4, o)
        },
        move |i| format!("{:?}", g(i)),
    )
}

fn large(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(40usize, 100)).chain([127, 128, 129, 200, 250]) {
        for kind in 0..6 {
            cases.push((n, kind));
        }
    }
    Suite::over(
        "large",
        "automata with one path or a plain number of them, for all n up to 40 (100) and some up to 250: a chain of n states, a \
         loop read n times, n parallel paths, a transition that reads n symbols, n or n / 3 final states; with a wrong word each",
        cases,
        |&(n, kind), o| {
            let m = n as u8;
            let (arrows, finals, word, wrong, number): (Vec<Arrow>, Vec<u8>, Vec<u8>, Vec<u8>, usize) = match kind {
                0 => ((0..m).map(|i| (i, vec![i % 2], i + 1)).collect(), vec![m], (0..m).map(|i| i % 2).collect(), (0..m).map(|i| 1 - i % 2).collect(), 1),
                1 => (vec![(0, vec![0], 0), (0, vec![1], 1)], vec![1], [vec![0; n], vec![1]].concat(), vec![0; n + 1], 1),
                2 => (
                    (1..=m).flat_map(|i| [(0, vec![0], i), (i, vec![1], 255)]).collect(),
                    vec![255],
                    vec![0, 1],
                    vec![0],
                    n,
                ),
                4 => ((1..=m).map(|i| (0, vec![i], i)).collect(), (1..=m).collect(), vec![m], vec![m, m], 1),
                5 if n < 3 => return Ok(()),
                5 => ((1..=m).rev().map(|i| (0, vec![i], i)).collect(), (1..=m).rev().filter(|i| i % 3 == 0).collect(), vec![m / 3 * 3], vec![m / 3 * 3 - 1], 1),
                _ => {
                    let w: Vec<u8> = (0..n).map(|i| (i * i % 7 % 2) as u8).collect();
                    let mut other = w.clone();
                    *other.last_mut().unwrap() ^= 1;
                    (vec![(0, w.clone(), 1)], vec![1], w, other, 1)
                }
            };
            let costs: Vec<i64> = (0..arrows.len() as i64).map(|i| i % 5).collect();
            let a = build(&arrows, &costs, 0, &finals);
            if recognise(&a, wrong).next().is_some() {
                return Err("the wrong word is accepted".into());
            }
            let found: Vec<_> = recognise(&a, word.clone()).collect();
            if found.len() != number {
                return Err(format!("{} runs instead of {}", found.len(), number));
            }
            let mut seen = Vec::new();
            let mut last = i64::MIN;
            for item in &found {
                let p = path(item, &arrows, &costs)?;
                let c: i64 = p.iter().map(|r| costs[*r]).sum();
                if seen.contains(&p) || !valid(&arrows, 0, &finals, &word, &p) || item.0.weight != Cost(Some(c)) || c < last {
                    return Err(format!("{:?} with weight {:?} (cost {}, before: {})", p, item.0.weight, c, last));
                }
                last = c;
                seen.push(p);
                o.step();
            }
            o.trace();
            o.state(&(n, kind));
            o.outcome(&(n, kind));
            if n > 1 {
                o.nontrivial();
            }
            Ok(())
        },
        |c| format!("{:?} (n, kind)", c),
    )
}

fn ends(states: u8) -> Vec<(u8, Vec<u8>)> {
    let all: Vec<u8> = (0..states).collect();
    mc_common::enumerate::subsets(&all, 0, all.len()).into_iter().map(|f| (0, f)).collect()
}

pub fn suites(t: Tier) -> Vec<Suite> {
    let l = t.pick(3, 4);
    vec![
        large(t),
        automata(
            "two",
            "all automata with two states and transitions that read nothing, a, b or ab; words of up to three (four) symbols and two with an unknown \
             symbol; all paths up to a cost (all there are if no cycle reads nothing); non-trivial: two runs",
            arrows(2, &[&[], &[0], &[1], &[0, 1]]),
            t.pick(4, 5),
            [ends(2), vec![(1, vec![0]), (1, vec![0, 0, 1]), (5, vec![0]), (5, vec![5]), (0, vec![7])]].concat(),
            1,
            move |a, c, i, f, o| run(a, c, i, f, 6, l, o),
        ),
        automata(
            "three",
            "all automata with three states and transitions that read nothing, a or b; words of up to three (four) symbols and two with an unknown symbol; \
             all paths up to a cost; non-trivial: two runs",
            arrows(3, &[&[], &[0], &[1]]),
            t.pick(4, 5),
            vec![(0, vec![2]), (0, vec![0, 1])],
            2,
            move |a, c, i, f, o| run(a, c, i, f, 5, l, o),
        ),
        parallel(t),
    ]
}

pub fn beam_suites(t: Tier) -> Vec<Suite> {
    vec![automata(
        "fsa",
        "all automata with two states and transitions that read nothing, a, b or ab; words of up to three symbols and two with an unknown symbol; beams \
         0, 1, 2, 3, 5, 100000 and the largest number; non-trivial: a beam of 1 finds some but not all",
        arrows(2, &[&[], &[0], &[1], &[0, 1]]),
        t.pick(3, 4),
        ends(2),
        1,
        |a, c, _, f, o| beams(a, c, f, 5, &words_of(3), &WIDTHS, o),
    ), Suite::over(
        "fsa-large",
        LARGE,
        large_sizes(t),
        |&n, o| {
            let arrows: Vec<Arrow> = (1..=n as u8).flat_map(|i| [(0, vec![0], i), (i, vec![1], 255)]).collect();
            let costs: Vec<i64> = (0..2 * n as i64).map(|i| i % 5).collect();
            beams(&arrows, &costs, &[255], 8, &[vec![0, 1], vec![0]], &widths_around(n), o)?;
            // one of n transitions applies at a time
            let arrows: Vec<Arrow> = (0..=n as u8).flat_map(|i| [(0, vec![i], 1), (1, vec![i], 0)]).collect();
            let costs: Vec<i64> = (0..arrows.len() as i64).map(|i| i % 3).collect();
            let word = |i: usize| (0..4).map(|k| ((i + k * n) % (n + 1)) as u8).collect::<Vec<u8>>();
            let words: Vec<Vec<u8>> = (0..=n).map(word).collect();
            beams(&arrows, &costs, &[0], 8, &words, &[(1, true), (2, true), (5, true)], o)
        },
        |n| format!("{} runs", n),
    )]
}
