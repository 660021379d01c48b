//! Trees as maps from Gorn addresses, against a sorted list of pairs.

use mc_common::enumerate::Sequences;
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use rustomata::util::tree::GornTree;

#[derive(Clone, Debug)]
enum Op {
    Insert(Vec<usize>, u8),
    Remove(Vec<usize>),
    Change(Vec<usize>),
    Entry(Vec<usize>, u8),
    Append(Vec<(Vec<usize>, u8)>),
    Split(Vec<usize>),
    Clear,
    ChangeAll,
    Rebuild,
}

fn letters() -> Vec<Op> {
    vec![
        Op::Insert(vec![], 1),
        Op::Insert(vec![0], 2),
        Op::Insert(vec![1], 3),
        Op::Insert(vec![0, 0], 4),
        Op::Insert(vec![10], 5),
        Op::Remove(vec![0]),
        Op::Change(vec![1]),
        Op::Entry(vec![0], 6),
        Op::Append(vec![(vec![0, 1], 7), (vec![1], 8)]),
        Op::Split(vec![0, 0]),
        Op::Rebuild,
        Op::Clear,
        Op::ChangeAll,
    ]
}

/// Pairs in document order.
type Model = Vec<(Vec<usize>, u8)>;

fn before(a: &[usize], b: &[usize]) -> bool {
    // document order: ancestors first, then left to right
    for (x, y) in a.iter().zip(b) {
        if x != y {
            return x < y;
        }
    }
    a.len() < b.len()
}

fn put(m: &mut Model, k: &[usize], v: u8) -> Option<u8> {
    if let Some(p) = m.iter_mut().find(|p| p.0 == k) {
        return Some(std::mem::replace(&mut p.1, v));
    }
    let at = m.iter().position(|p| before(k, &p.0)).unwrap_or(m.len());
    m.insert(at, (k.to_vec(), v));
    None
}

fn observe(t: &GornTree<u8>, m: &Model) -> Verdict {
    if t.len() != m.len() || t.is_empty() != m.is_empty() {
        return Err(format!("{} nodes, not {}", t.len(), m.len()));
    }
    let pairs: Model = t.into_iter().map(|(k, v)| (k.clone(), *v)).collect();
    if pairs != *m {
        return Err(format!("{:?}, not {:?}", pairs, m));
    }
    if t.keys().cloned().collect::<Vec<_>>() != m.iter().map(|p| p.0.clone()).collect::<Vec<_>>()
        || t.values().cloned().collect::<Vec<_>>() != m.iter().map(|p| p.1).collect::<Vec<_>>()
    {
        return Err("keys() or values() differ from the pairs".into());
    }
    for k in [vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![10], vec![7]] {
        let e = m.iter().find(|p| p.0 == k).map(|p| p.1);
        if t.get(&k).cloned() != e || t.contains_key(&k) != e.is_some() {
            return Err(format!("at {:?}: {:?}, not {:?}", k, t.get(&k), e));
        }
    }
    Ok(())
}

fn run(ops: &[Op], obs: &mut Obs) -> Verdict {
    let mut t: GornTree<u8> = GornTree::new();
    let mut m: Model = Vec::new();
    for op in ops {
        match op {
            Op::Insert(k, v) => {
                if t.insert(k.clone(), *v) != put(&mut m, k, *v) {
                    return Err(format!("insert({:?}) gave a wrong old value", k));
                }
            }
            Op::Remove(k) => {
                let e = m.iter().position(|p| p.0 == *k).map(|i| m.remove(i).1);
                if t.remove(k) != e {
                    return Err(format!("remove({:?}) gave a wrong value", k));
                }
            }
            Op::Change(k) => {
                if let Some(v) = t.get_mut(k) {
                    *v += 1
                }
                if let Some(p) = m.iter_mut().find(|p| p.0 == *k) {
                    p.1 += 1
                }
            }
            Op::Entry(k, v) => {
                let got = *t.entry(k.clone()).or_insert(*v);
                let e = m.iter().find(|p| p.0 == *k).map(|p| p.1);
                if e.is_none() {
                    put(&mut m, k, *v);
                }
                if got != e.unwrap_or(*v) {
                    return Err(format!("entry({:?}) has {}", k, got));
                }
            }
            Op::Append(ps) => {
                let mut other: GornTree<u8> = ps.iter().cloned().collect();
                t.append(&mut other);
                if !other.is_empty() {
                    return Err("append() left something behind".into());
                }
                for (k, v) in ps {
                    put(&mut m, k, *v);
                }
            }
            Op::Split(k) => {
                let tail = t.split_off(k);
                let at = m.iter().position(|p| !before(&p.0, k)).unwrap_or(m.len());
                let m2 = m.split_off(at);
                observe(&tail, &m2).map_err(|e| format!("the part split off: {}", e))?;
                if m2.len() % 2 == 1 {
                    t = tail;
                    m = m2;
                }
            }
            Op::Clear => {
                t.clear();
                m.clear();
            }
            Op::ChangeAll => {
                for v in t.values_mut() {
                    *v += 1
                }
                for (_, v) in &mut t {
                    *v += 1
                }
                for p in &mut m {
                    p.1 += 2
                }
            }
            Op::Rebuild => {
                let same: GornTree<u8> = m.iter().rev().cloned().collect();
                if same != t || t.clone() != same {
                    return Err("the same nodes, but not the same tree".into());
                }
                let mut bigger = t.clone();
                bigger.insert(vec![77], 0);
                if bigger == t {
                    return Err("different nodes, but the same tree".into());
                }
                let borrowed: GornTree<&u8> = (&t).into_iter().map(|(k, v)| (k.clone(), v)).collect();
                let owned = borrowed.cloned();
                observe(&owned, &m)?;
                t = owned.into_iter().collect();
            }
        }
        obs.step();
        obs.state(&m);
        observe(&t, &m).map_err(|e| format!("after {:?}: {}", op, e))?;
    }
    obs.trace();
    obs.outcome(&m);
    if m.len() >= 2 {
        obs.nontrivial();
        obs.note(|| format!("{:?}", m));
    }
    Ok(())
}

fn suite(tier: Tier) -> Suite {
    let depth = tier.pick(5, 6);
    let s = Sequences::new(letters().len(), depth);
    let get = move |i: u64| -> Vec<Op> { s.get(i).into_iter().map(|j| letters()[j].clone()).collect() };
    Suite::new(
        "sequences",
        format!("all sequences of at most {} of {:?}; non-trivial: two or more nodes at the end", depth, letters()),
        s.len(),
        move |i, o| run(&get(i), o),
        move |i| format!("{:?}", get(i)),
    )
}

/// All short sequences of operations on trees that already have some nodes.
fn prefilled(tier: Tier) -> Suite {
    let mut trees: Vec<Vec<Vec<usize>>> = Vec::new();
    for n in tier.pick(vec![6usize, 11, 20], vec![4, 6, 8, 11, 12, 16, 20, 33]) {
        trees.push((0..n).map(|i| vec![i]).collect());
        trees.push((0..n).map(|i| vec![0; i]).collect());
        trees.push((0..n).map(|i| vec![0, i]).collect());
        trees.push((0..n).map(|i| [vec![0; i / 2], vec![1; i % 2]].concat()).collect());
        trees.push((0..n).map(|i| (0..3).filter(|b| i >> b > 0).map(|b| (i >> b) & 1).collect()).collect());
    }
    let s = Sequences::new(letters().len(), tier.pick(3, 4));
    let n = s.len();
    let k = trees.len() as u64;
    let get = move |i: u64| -> Vec<Op> {
        let mut ops: Vec<Op> = trees[(i / n / 2) as usize].iter().zip(20u8..).map(|(a, v)| Op::Insert(a.clone(), v)).collect();
        if i / n % 2 == 1 {
            ops.reverse();
        }
        ops.extend(s.get(i % n).into_iter().map(|j| letters()[j].clone()));
        ops
    };
    let g2 = get.clone();
    Suite::new(
        "prefilled",
        "rows, chains, rows below a node, combs and bushes of several sizes up to 20 (33), filled in either direction, then all sequences of at most 3 (4) \
         operations",
        2 * k * n,
        move |i, o| run(&get(i), o),
        move |i| format!("{:?}", g2(i)),
    )
}

/// All pairs of small trees: equality, and joining them.
fn pairs(tier: Tier) -> Suite {
    let at: Vec<Vec<usize>> =
        vec![vec![], vec![0], vec![0, 0], vec![1], vec![0, 1], vec![2], vec![0, 0, 0]].into_iter().take(tier.pick(6, 7)).collect();
    let n = 3u64.pow(at.len() as u32);
    let nodes = move |mut i: u64| -> Vec<(Vec<usize>, u8)> {
        let mut v = Vec::new();
        for k in &at {
            if i % 3 > 0 {
                v.push((k.clone(), (i % 3) as u8));
            }
            i /= 3;
        }
        v
    };
    let nodes = std::sync::Arc::new(nodes);
    let show = nodes.clone();
    Suite::new(
        "pairs",
        "all pairs of trees with values 1 and 2 at any of 6 (7) addresses; non-trivial: different trees of equal size",
        n * n,
        move |i, o| {
            let (a, b) = (nodes(i / n), nodes(i % n));
            let (s, t): (GornTree<u8>, GornTree<u8>) = (a.iter().cloned().collect(), b.iter().rev().cloned().collect());
            let same = i / n == i % n;
            if (s == t) != same || (t == s) != same || (s != t) == same {
                return Err(format!("equal: {}, the same nodes: {}", s == t, same));
            }
            let mut both = s.clone();
            both.append(&mut t.clone());
            let mut m: Model = Vec::new();
            for (k, v) in a.iter().chain(&b) {
                put(&mut m, k, *v);
            }
            observe(&both, &m).map_err(|e| format!("joined: {}", e))?;
            o.step();
            o.trace();
            o.outcome(&m);
            if i / n == i % n {
                o.state(&m);
            }
            if a.len() == b.len() && !same {
                o.nontrivial();
            }
            Ok(())
        },
        move |i| format!("{:?} and {:?}", show(i / n), show(i % n)),
    )
}

/// Deep and wide trees.
fn sizes(tier: Tier) -> Suite {
    let top = tier.pick(300usize, 700);
    let cases: Vec<(usize, usize)> =
        (0..=40).chain([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, top]).flat_map(|n| (0..4).map(move |k| (n, k))).collect();
    Suite::over(
        "sizes",
        "chains, stars, combs and binary trees of all sizes up to 40 and some up to 300 (700): filled in \
         either direction, read, split and taken apart; non-trivial: three or more nodes",
        cases,
        |&(n, kind), o| {
            let keys: Vec<Vec<usize>> = (0..n)
                .map(|i| match kind {
                    0 => vec![0; i],
                    1 => if i == 0 { vec![] } else { vec![i - 1] },
                    2 => { let mut k = vec![1; i / 2]; if i % 2 == 1 { k.push(0) } k }
                    _ => { let mut k = Vec::new(); let mut j = i + 1; while j > 1 { k.insert(0, j % 2); j /= 2 } k }
                })
                .collect();
            let mut m: Vec<(Vec<usize>, usize)> = keys.iter().cloned().zip(0..).collect();
            m.sort_by(|a, b| if before(&a.0, &b.0) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
            for down in [false, true] {
                let mut t = GornTree::new();
                let mut order: Vec<usize> = (0..n).collect();
                if down { order.reverse() }
                for i in order {
                    if t.insert(keys[i].clone(), i).is_some() || t.get(&keys[i]) != Some(&i) {
                        return Err(format!("inserting at {:?}", keys[i]));
                    }
                    o.step();
                }
                let got: Vec<(Vec<usize>, usize)> = (&t).into_iter().map(|(k, v)| (k.clone(), *v)).collect();
                if got != m || t.len() != n || t.values().cloned().ne(m.iter().map(|p| p.1)) || t.keys().ne(m.iter().map(|p| &p.0)) {
                    return Err("the nodes are not those inserted in document order".into());
                }
                for cut in [0, n / 3, n / 2, n.saturating_sub(1)] {
                    if cut < n {
                        let mut head = t.clone();
                        let mut tail = head.split_off(&m[cut].0);
                        if head.len() != cut || tail.len() != n - cut || tail.get(&m[cut].0).is_none() {
                            return Err(format!("splitting at {:?}: {} and {} nodes", m[cut].0, head.len(), tail.len()));
                        }
                        if n > 0 && head == t && cut < n { return Err("a part equals the whole".into()); }
                        head.append(&mut tail);
                        if head != t { return Err("joined again, it is another tree".into()); }
                    }
                }
                for i in 0..n {
                    if t.remove(&keys[i]) != Some(i) || t.contains_key(&keys[i]) || t.len() != n - i - 1 {
                        return Err(format!("removing {:?}", keys[i]));
                    }
                }
            }
            o.state(&(n, kind));
            o.trace();
            o.outcome(&m.len());
            if n > 2 { o.nontrivial() }
            Ok(())
        },
        |c| format!("{:?} (size, kind)", c),
    )
}

pub fn check() -> Check {
    Check { id: "C05", assumptions: vec![], build: |t| vec![pairs(t), prefilled(t), sizes(t), suite(t)] }
}
