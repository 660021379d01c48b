//! Multiple Dyck words: words × partitions (× sorts), against the definition by cancellation.

use mc_common::enumerate::Sequences;
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use rustomata::dyck::multiple::MultipleDyckLanguage;
use rustomata::dyck::Bracket::{self, Close, Open};
use rustomata::util::partition::Partition;
use std::collections::BTreeSet;

type Cell = Vec<u8>;

/// One pair of matching brackets with what is between them.
#[derive(Clone, Debug)]
struct Pair {
    symbol: u8,
    inner: Vec<Pair>,
}

fn pairs(word: &[Bracket<u8>]) -> Option<Vec<Pair>> {
    let mut open: Vec<(u8, Vec<Pair>)> = Vec::new();
    let mut here = Vec::new();
    for b in word {
        match b {
            Open(a) => open.push((*a, std::mem::take(&mut here))),
            Close(a) => {
                let (b, before) = open.pop()?;
                if *a != b {
                    return None;
                }
                let inner = std::mem::replace(&mut here, before);
                here.push(Pair { symbol: b, inner });
            }
        }
    }
    if open.is_empty() {
        Some(here)
    } else {
        None
    }
}

/// Can the pairs be cancelled cell by cell?  In the sorted variant the pairs of one step also
/// have the same sort, which no other step at the same place has.
fn cancels(items: &[Pair], cells: &[Cell], sort: Option<&[usize]>, used: &BTreeSet<usize>) -> bool {
    if items.is_empty() {
        return true;
    }
    let cell = match cells.iter().find(|c| c.contains(&items[0].symbol)) {
        None => return false,
        Some(c) => c,
    };
    let mut used = used.clone();
    if let Some(s) = sort {
        let at = s[items[0].symbol as usize];
        if cell.iter().any(|a| s[*a as usize] != at) || !used.insert(at) {
            return false;
        }
    }
    let others: Vec<u8> = cell.iter().cloned().filter(|a| *a != items[0].symbol).collect();
    let mut chosen = vec![0];
    choose(items, &others, &mut chosen, &mut |chosen| {
        let inner: Vec<Pair> =
            (0..items.len()).filter(|i| chosen.contains(i)).flat_map(|i| items[i].inner.clone()).collect();
        let rest: Vec<Pair> = (0..items.len()).filter(|i| !chosen.contains(i)).map(|i| items[i].clone()).collect();
        cancels(&inner, cells, sort, &BTreeSet::new()) && cancels(&rest, cells, sort, &used)
    })
}

fn choose(items: &[Pair], symbols: &[u8], chosen: &mut Vec<usize>, then: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    match symbols.split_first() {
        None => then(chosen),
        Some((s, rest)) => {
            for i in 0..items.len() {
                if items[i].symbol == *s && !chosen.contains(&i) {
                    chosen.push(i);
                    if choose(items, rest, chosen, then) {
                        return true;
                    }
                    chosen.pop();
                }
            }
            false
        }
    }
}

fn member(word: &[Bracket<u8>], cells: &[Cell], sort: Option<&[usize]>) -> bool {
    pairs(word).map_or(false, |p| cancels(&p, cells, sort, &BTreeSet::new()))
}

/// All partitions of all subsets of `0..k`.
fn partitions(k: u8) -> Vec<Vec<Cell>> {
    let mut all: Vec<Vec<Cell>> = vec![Vec::new()];
    for s in 0..k {
        let mut next = Vec::new();
        for p in all {
            for i in 0..p.len() {
                let mut q = p.clone();
                q[i].push(s);
                next.push(q);
            }
            let mut q = p.clone();
            q.push(vec![s]);
            next.push(q);
            next.push(p);
        }
        all = next;
    }
    all
}

fn language(cells: &[Cell], sort: Option<&[usize]>) -> MultipleDyckLanguage<u8> {
    let p = Partition::new(cells.iter().map(|c| c.iter().cloned().collect()).collect()).expect("disjoint cells");
    match sort {
        None => MultipleDyckLanguage::new(p),
        Some(s) => MultipleDyckLanguage::sorted(p, |a: &u8| s[*a as usize]),
    }
}

fn show(word: &[Bracket<u8>]) -> String {
    word.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" ")
}

fn run(word: &[Bracket<u8>], cells: &[Cell], sort: Option<&[usize]>, obs: &mut Obs) -> Verdict {
    let e = member(word, cells, sort);
    let l = language(cells, sort);
    if l.recognize(word) != e {
        return Err(format!("recognised: {}, in the language: {}", !e, e));
    }
    obs.steps(word.len());
    obs.state(&(show(word), cells, sort));
    if pairs(word).is_some() {
        // stored and read again; with other annotations
        let bytes = bincode::serialize(&l, bincode::Infinite).map_err(|e| e.to_string())?;
        let copy: MultipleDyckLanguage<u8> = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
        if copy.recognize(word) != e {
            return Err(format!("stored and read again, it is recognised: {}, in the language: {}", !e, e));
        }
        // once more, so that no state is kept between words
        if l.recognize(word) != e || l.recognize(&[]) != true {
            return Err("the second answer differs from the first".into());
        }
    }
    obs.trace();
    obs.outcome(&(e, word.len()));
    if e && word.len() >= 4 {
        obs.nontrivial();
        obs.note(|| format!("{} with cells {:?}", show(word), cells));
    }
    Ok(())
}

fn brackets(letters: Vec<usize>) -> Vec<Bracket<u8>> {
    letters.into_iter().map(|l| if l % 2 == 0 { Open((l / 2) as u8) } else { Close((l / 2) as u8) }).collect()
}

/// All words of at most `max` brackets, Dyck words or not.
fn all_words(name: &'static str, kinds: u8, max: u32) -> Suite {
    let s = Sequences::new(2 * kinds as usize, max);
    let ps = partitions(kinds);
    let n = ps.len() as u64;
    let get = move |i: u64| (brackets(s.get(i / n)), ps[(i % n) as usize].clone());
    let get2 = get.clone();
    Suite::new(
        name,
        format!(
            "all words of at most {} brackets of {} kinds × all {} partitions of all subsets of the kinds; \
             non-trivial: members of length at least 4",
            max, kinds, n
        ),
        s.len() * n,
        move |i, o| {
            let (w, p) = get(i);
            run(&w, &p, None, o)
        },
        move |i| {
            let (w, p) = get2(i);
            format!("{}, cells {:?}", show(&w), p)
        },
    )
}

/// The Dyck words of n pairs without annotations.
fn shapes(n: usize) -> Vec<Vec<bool>> {
    fn go(open: usize, close: usize, acc: &mut Vec<bool>, out: &mut Vec<Vec<bool>>) {
        if open == 0 && close == 0 {
            out.push(acc.clone());
        }
        if open > 0 {
            acc.push(true);
            go(open - 1, close + 1, acc, out);
            acc.pop();
        }
        if close > 0 {
            acc.push(false);
            go(open, close - 1, acc, out);
            acc.pop();
        }
    }
    let mut out = Vec::new();
    go(n, 0, &mut Vec::new(), &mut out);
    out
}

fn annotate(shape: &[bool], mut annotation: u64, kinds: u64) -> Vec<Bracket<u8>> {
    let mut stack = Vec::new();
    shape
        .iter()
        .map(|o| {
            if *o {
                let a = (annotation % kinds) as u8;
                annotation /= kinds;
                stack.push(a);
                Open(a)
            } else {
                Close(stack.pop().unwrap())
            }
        })
        .collect()
}

/// All Dyck words of n pairs of `kinds`, all partitions, and (sorted) all sorts in `0..sorts`.
fn dyck_words(name: &'static str, n: usize, kinds: u8, sorts: usize) -> Suite {
    let sh = shapes(n);
    let ps = partitions(kinds);
    let fs: Vec<Vec<usize>> = if sorts == 0 {
        vec![Vec::new()]
    } else {
        mc_common::enumerate::product(&vec![(0..sorts).collect(); kinds as usize])
    };
    let radices = [sh.len() as u64, (kinds as u64).pow(n as u32), ps.len() as u64, fs.len() as u64];
    let rule = format!(
        "all Dyck words of {} pairs of {} kinds × all {} partitions of all subsets of the kinds{}; non-trivial: members",
        n,
        kinds,
        ps.len(),
        if sorts > 0 { format!(" × all {} sorts", fs.len()) } else { String::new() }
    );
    let get = move |i: u64| {
        let d = mc_common::enumerate::digits(i, &radices);
        (
            annotate(&sh[d[0]], d[1] as u64, kinds as u64),
            ps[d[2]].clone(),
            if sorts == 0 { None } else { Some(fs[d[3]].clone()) },
        )
    };
    let get2 = get.clone();
    Suite::new(
        name,
        rule,
        radices.iter().product(),
        move |i, o| {
            let (w, p, s) = get(i);
            run(&w, &p, s.as_deref(), o)
        },
        move |i| {
            let (w, p, s) = get2(i);
            format!("{}, cells {:?}, sorts {:?}", show(&w), p, s)
        },
    )
}

/// Words and cells beyond the exhaustive bounds whose membership is plain.
fn large(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(16u16, 24)).chain([40, 64, 65, 128, 129, 200, 255]) {
        for kind in 0..8 {
            // in the worst case, the search tries all ways to put the pairs into nodes
            if n > 7 && ![4, 5].contains(&kind) {
                continue;
            }
            for sorted in [false, true] {
                cases.push((n, kind, sorted));
            }
        }
    }
    Suite::over(
        "large",
        "for all n up to 16 (24) and some up to 255: n pairs of one-element cells nested and in a row; up to 7: the pairs of one cell of n elements in a row, in \
         reverse, with one missing, with one twice, nested; n cells of two elements, the second elements in reverse; each plain and with sorts that are constant on cells",
        cases,
        |&(n, kind, sorted), o| {
            let m = |i: u16| -> (Bracket<u16>, Bracket<u16>) { (Open(i), Close(i)) };
            let flat = |s: Vec<u16>| -> Vec<Bracket<u16>> { s.into_iter().flat_map(|i| [m(i).0, m(i).1]).collect() };
            let nested = || -> Vec<Bracket<u16>> { (0..n).map(Open).chain((0..n).rev().map(Close)).collect() };
            let one: Vec<Vec<u16>> = vec![(0..n).collect()];
            let single: Vec<Vec<u16>> = (0..n).map(|i| vec![i]).collect();
            let two: Vec<Vec<u16>> = (0..n).map(|i| vec![2 * i, 2 * i + 1]).collect();
            let (cells, word, e) = match kind {
                0 => (one, flat((0..n).collect()), true),
                1 => (one, flat((0..n).rev().collect()), true),
                2 => (one, flat((0..n).filter(|i| *i != n / 2).collect()), n == 1),
                3 => (one, flat((0..n).chain([n / 2]).collect()), n == 1 && !sorted),
                4 => (single, nested(), true),
                5 => (single, flat((0..n).collect()), true),
                6 => (one, nested(), n == 1),
                _ => (two, flat((0..n).map(|i| 2 * i).chain((0..n).rev().map(|i| 2 * i + 1)).collect()), true),
            };
            let p = Partition::new(cells.iter().map(|c| c.iter().cloned().collect()).collect()).ok_or("cells")?;
            let l = if sorted {
                let cells = cells.clone();
                MultipleDyckLanguage::sorted(p, move |a: &u16| cells.iter().position(|c| c.contains(a)).unwrap())
            } else {
                MultipleDyckLanguage::new(p)
            };
            if l.recognize(&word) != e {
                return Err(format!("recognised: {}, in the language: {}", !e, e));
            }
            o.steps(word.len());
            o.trace();
            o.state(&(n, kind, sorted));
            o.outcome(&(e, n));
            if e {
                o.nontrivial()
            }
            Ok(())
        },
        |c| format!("{:?} (n, kind, sorted)", c),
    )
}

pub fn check() -> Check {
    Check {
        id: "C08",
        assumptions: vec![],
        build: |t: Tier| {
            let mut v = vec![
                large(t),
                all_words("words-1", 1, t.pick(12, 16)),
                all_words("words-2", 2, t.pick(8, 10)),
                all_words("words-3", 3, t.pick(6, 8)),
                all_words("words-4", 4, t.pick(4, 6)),
                dyck_words("dyck-4-4", 4, 4, 0),
                dyck_words("dyck-5-3", 5, 3, 0),
                dyck_words("dyck-5-4", 5, 4, 0),
                dyck_words("dyck-6-3", 6, 3, 0),
                dyck_words("dyck-7-2", 7, 2, 0),
                dyck_words("sorted-3-2", 3, 2, 3),
                dyck_words("sorted-4-3", 4, 3, 3),
                dyck_words("sorted-5-3", 5, 3, 3),
            ];
            if t == Tier::Thorough {
                v.push(dyck_words("dyck-6-4", 6, 4, 0));
                v.push(dyck_words("dyck-7-3", 7, 3, 0));
                v.push(dyck_words("dyck-8-2", 8, 2, 0));
                v.push(dyck_words("sorted-6-3", 6, 3, 3));
            }
            v
        },
    }
}
