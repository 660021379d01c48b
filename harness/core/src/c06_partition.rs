//! Partitions of alphabets: every list of subsets.

use mc_common::enumerate::Sequences;
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::util::partition::Partition;
use std::collections::BTreeSet;

fn cell(bits: usize) -> BTreeSet<u8> {
    (0..4).filter(|i| bits >> i & 1 == 1).map(|i| i as u8).collect()
}

fn observe(p: &Partition<u8>, cells: &[BTreeSet<u8>]) -> Verdict {
    let all: BTreeSet<u8> = cells.iter().flatten().cloned().collect();
    for s in 0..5u8 {
        let e = cells.iter().find(|c| c.contains(&s));
        if p.get_cell(&s) != e {
            return Err(format!("the cell of {} is {:?}, not {:?}", s, p.get_cell(&s), e));
        }
    }
    let mut got: Vec<BTreeSet<u8>> = p.collapse().into_iter().cloned().collect();
    got.retain(|c| !c.is_empty());
    got.sort();
    let mut e: Vec<BTreeSet<u8>> = cells.iter().filter(|c| !c.is_empty()).cloned().collect();
    e.sort();
    if got != e {
        return Err(format!("the cells are {:?}, not {:?}", got, e));
    }
    let a: Vec<u8> = p.alphabet().cloned().collect();
    if a.len() != all.len() || a.iter().cloned().collect::<BTreeSet<_>>() != all {
        return Err(format!("the alphabet is {:?}, not {:?}", a, all));
    }
    Ok(())
}

fn run(cells: &[BTreeSet<u8>], obs: &mut Obs) -> Verdict {
    let disjoint = cells.iter().enumerate().all(|(i, c)| cells[..i].iter().all(|d| c.is_disjoint(d)));
    let p = Partition::new(cells.to_vec());
    obs.step();
    obs.state(cells);
    if p.is_some() != disjoint {
        return Err(format!("accepted: {}, pairwise disjoint: {}", p.is_some(), disjoint));
    }
    let bytes = bincode::serialize(&cells.to_vec(), bincode::Infinite).map_err(|e| e.to_string())?;
    let read: Result<Result<Partition<u8>, _>, String> = catch(|| bincode::deserialize(&bytes));
    match (p, read) {
        (_, Err(panic)) => return Err(format!("reading it panics: {}", panic)),
        (None, Ok(Ok(_))) => return Err("cells that overlap are read as a partition".into()),
        (None, Ok(Err(_))) => (),
        (Some(_), Ok(Err(e))) => return Err(format!("disjoint cells are not read: {}", e)),
        (Some(p), Ok(Ok(q))) => {
            observe(&p, cells)?;
            observe(&q, cells).map_err(|e| format!("when read: {}", e))?;
            let bytes = bincode::serialize(&p, bincode::Infinite).map_err(|e| e.to_string())?;
            let r: Partition<u8> = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
            if r != p || q != p {
                return Err("written and read, it is another partition".into());
            }
            if cells.len() >= 2 {
                obs.nontrivial();
                obs.note(|| format!("cells {:?}", p.collapse()));
            }
        }
    }
    obs.trace();
    obs.outcome(&(disjoint, cells.len()));
    Ok(())
}

fn suite(tier: Tier) -> Suite {
    let s = Sequences::new(16, tier.pick(4, 5));
    let get = move |i: u64| -> Vec<BTreeSet<u8>> { s.get(i).into_iter().map(cell).collect() };
    Suite::new(
        "cells",
        "all lists of at most 4 (5) subsets of a four-letter alphabet; non-trivial: at least two disjoint cells",
        s.len(),
        move |i, o| run(&get(i), o),
        move |i| format!("{:?}", get(i)),
    )
}

/// Many symbols: residue classes, intervals and singletons, with or without one symbol that is in two cells.
fn many(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(24u32, 40)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
        for k in [1, 2, 3, n / 2, n].into_iter().filter(|k| (1..=n).contains(k)) {
            for kind in 0..2 {
                cases.push((n, k, kind));
            }
        }
    }
    Suite::over(
        "many",
        "all residue classes and all intervals of up to 24 (40) symbols and some of up to 300, each once \
         as it is and once for each of some symbols that is added to another cell, to the same, or is in a cell given twice",
        cases,
        |&(n, k, kind), o| {
            let mut cells: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); k as usize];
            for s in 0..n {
                cells[if kind == 0 { s % k } else { s * k / n } as usize].insert(s);
            }
            let p = Partition::new(cells.clone()).ok_or("disjoint cells are refused")?;
            for c in &cells {
                for s in c {
                    if p.get_cell(s) != Some(c) {
                        return Err(format!("the cell of {} is {:?}", s, p.get_cell(s)));
                    }
                }
            }
            if p.get_cell(&n).is_some() {
                return Err("there is a cell for a symbol that is in none".into());
            }
            let got: BTreeSet<&BTreeSet<u32>> = p.collapse().into_iter().collect();
            if got.len() != cells.len() || p.collapse().len() != cells.len() || got != cells.iter().collect() {
                return Err("the cells differ from those given".into());
            }
            if p.alphabet().cloned().ne(0..n) {
                return Err("the alphabet differs".into());
            }
            let bytes = bincode::serialize(&p, bincode::Infinite).map_err(|e| e.to_string())?;
            let q: Partition<u32> = bincode::deserialize(&bytes).map_err(|e| e.to_string())?;
            if p != q {
                return Err("written and read, it is another partition".into());
            }
            o.step();
            o.trace();
            o.state(&(n, k, kind));
            o.outcome(&(n, k));
            for s in [0, n / 2, n - 1] {
                for (c, what) in (0..cells.len()).filter(|c| !cells[*c].contains(&s)).take(3).map(|c| (c, "another cell")).chain([(0, "a cell of its own"), (0, "a cell given twice")]) {
                    let mut overlapping = cells.clone();
                    match what {
                        "another cell" => { overlapping[c].insert(s); }
                        "a cell of its own" => overlapping.insert(c, [s].into_iter().collect()),
                        _ => { let again = cells.iter().find(|c| c.contains(&s)).unwrap().clone(); overlapping.push(again) }
                    }
                    if Partition::new(overlapping).is_some() {
                        return Err(format!("accepted though {} is in {}, too", s, what));
                    }
                    o.nontrivial();
                }
            }
            Ok(())
        },
        |c| format!("{:?} (symbols, cells, kind)", c),
    )
}

pub fn check() -> Check {
    Check { id: "C06", assumptions: vec![], build: |t| vec![many(t), suite(t)] }
}
