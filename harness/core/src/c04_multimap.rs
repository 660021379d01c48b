//! The vector of vectors that grows on access.

use mc_common::enumerate::Sequences;
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use std::collections::BTreeMap;
use vecmultimap::{VecMultiMap, VecMultiMapAdapter};

#[derive(Clone, Copy, Debug)]
enum Op {
    Push(usize, u8),
    Get(usize),
    TakeLast(usize),
    Look(usize),
    MutPush(usize, u8),
    IndexPush(usize, u8),
}

const OPS: [Op; 9] = [
    Op::Push(0, 1),
    Op::Push(2, 2),
    Op::Get(3),
    Op::TakeLast(2),
    Op::Look(1),
    Op::MutPush(5, 3),
    Op::Get(0),
    Op::Push(0, 4),
    Op::IndexPush(1, 7),
];

type Model = BTreeMap<usize, Vec<u8>>;

fn expected(m: &Model, i: usize) -> Vec<u8> {
    m.get(&i).cloned().unwrap_or_default()
}

fn looked(r: Option<&Vec<u8>>, m: &Model, i: usize) -> Verdict {
    match r {
        Some(v) if *v == expected(m, i) => Ok(()),
        None if expected(m, i).is_empty() => Ok(()),
        r => Err(format!("at {}: {:?}, not {:?}", i, r, expected(m, i))),
    }
}

fn model_step(m: &mut Model, op: Op) {
    match op {
        Op::Push(i, v) | Op::MutPush(i, v) | Op::IndexPush(i, v) => m.entry(i).or_default().push(v),
        Op::TakeLast(i) => {
            m.entry(i).or_default().pop();
        }
        Op::Get(_) | Op::Look(_) => (),
    }
}

fn run_owned(ops: &[Op], out: usize, obs: &mut Obs) -> Verdict {
    let mut s: VecMultiMap<u8> = VecMultiMap::new();
    let mut m = Model::new();
    for &op in ops {
        match op {
            Op::Push(i, v) => s.push_to(i, v),
            Op::MutPush(i, v) | Op::IndexPush(i, v) => s.get_mut(i).push(v),
            Op::TakeLast(i) => {
                s.get_mut(i).pop();
            }
            Op::Get(i) => {
                let g = s.get(i);
                if *g != expected(&m, i) {
                    return Err(format!("get({}) is {:?}, not {:?}", i, g, expected(&m, i)));
                }
            }
            Op::Look(_) => (),
        }
        model_step(&mut m, op);
        obs.step();
        obs.state(&m);
        for i in 0..8 {
            looked(s.get_or_fail(i), &m, i)?;
        }
    }
    let last = m.iter().filter(|(_, v)| !v.is_empty()).map(|(i, _)| i + 1).max().unwrap_or(0);
    // the two ways out: as long as asked for, or as long as needed
    let size = [0, 0, last, last + 1, 9, last / 2][out];
    let (v, what): (Vec<Vec<u8>>, _) = if out == 0 {
        (s.into(), last)
    } else {
        (s.into_vec_with_size(size), size)
    };
    let e: Vec<Vec<u8>> = (0..what).map(|i| expected(&m, i)).collect();
    if v != e {
        return Err(format!("as a vector of length {}: {:?}, not {:?}", what, v, e));
    }
    obs.trace();
    obs.outcome(&v);
    if last >= 3 {
        obs.nontrivial();
        obs.note(|| format!("{:?}", v));
    }
    Ok(())
}

fn run_adapter(ops: &[Op], initial: usize, obs: &mut Obs) -> Verdict {
    let mut base: Vec<Vec<u8>> = (0..initial).map(|i| vec![i as u8 + 10]).collect();
    let mut m: Model = base.iter().cloned().enumerate().collect();
    for &op in ops {
        // half of the time a new adapter for the same vector, made in either way
        let mut s: VecMultiMapAdapter<u8> =
            if m.len() % 2 == 0 { VecMultiMapAdapter(&mut base) } else { (&mut base).into() };
        match op {
            Op::Push(i, v) => s.push_to(i, v),
            Op::MutPush(i, v) => s.get_mut(i).push(v),
            Op::IndexPush(i, v) => s[i].push(v),
            Op::TakeLast(i) => {
                s.get_mut(i).pop();
            }
            Op::Get(i) => {
                let g = s.get(i).clone();
                if g != expected(&m, i) {
                    return Err(format!("get({}) is {:?}, not {:?}", i, g, expected(&m, i)));
                }
                if s[i] != g {
                    return Err(format!("[{}] is {:?}, not {:?}", i, s[i], g));
                }
            }
            Op::Look(_) => (),
        }
        model_step(&mut m, op);
        obs.step();
        for i in 0..8 {
            looked(s.get_or_fail(i), &m, i)?;
        }
    }
    for i in 0..base.len().max(8) {
        let b = base.get(i).cloned().unwrap_or_default();
        if b != expected(&m, i) {
            return Err(format!("the vector below has {:?} at {}, not {:?}", b, i, expected(&m, i)));
        }
    }
    obs.trace();
    Ok(())
}

fn suite(tier: Tier) -> Suite {
    let depth = tier.pick(6, 7);
    let s = Sequences::new(OPS.len(), depth);
    let get = move |i: u64| -> Vec<Op> { s.get(i).into_iter().map(|j| OPS[j]).collect() };
    Suite::new(
        "sequences",
        format!(
            "all sequences of at most {} of {:?} on the map and on its adapter over vectors of \
             length 0, 1 and 4; non-trivial: three or more rows at the end",
            depth, OPS
        ),
        s.len(),
        move |i, o| {
            let ops = get(i);
            for out in 0..6 {
                run_owned(&ops, out, o)?;
            }
            for initial in [0, 1, 4] {
                run_adapter(&ops, initial, o).map_err(|e| format!("adapter over {}: {}", initial, e))?;
            }
            Ok(())
        },
        move |i| format!("{:?}", get(i)),
    )
}

/// Many rows and long rows: two rows of the given lengths, and looking elsewhere.
fn many(tier: Tier) -> Suite {
    let lens = [0usize, 1, 2, 255, 256, 257, tier.pick(300, 1000)];
    let mut cases = Vec::new();
    for i in (0..=70).chain([126, 127, 128, 254, 255, 256, 257, 300, 1000]) {
        for j in [0, 1, 2, 31, 64, 127, 255, 256, 1023] {
            for a in lens {
                for b in [0, 1, 256] {
                    cases.push((i, j, a, b));
                }
            }
        }
    }
    Suite::over(
        "many",
        "rows of up to 300 (1000) values at two indices of up to 1023, after looking at a third one; \
         non-trivial: both rows are filled",
        cases,
        |&(i, j, a, b), o| {
            for look in [0, i + 1, j + 300] {
                let mut s = VecMultiMap::new();
                let mut base = Vec::new();
                let mut t = VecMultiMapAdapter(&mut base);
                let mut e: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
                if !s.get(look).is_empty() || !t.get(look).is_empty() {
                    return Err(format!("a new map has something at {}", look));
                }
                for k in 0..a.max(b) {
                    for (row, n) in [(i, a), (j, b)] {
                        if k < n {
                            s.push_to(row, k);
                            t.push_to(row, k);
                            e.entry(row).or_default().push(k);
                        }
                    }
                    o.step();
                }
                let last = e.keys().max().map_or(0, |k| k + 1);
                let at = |k: usize| e.get(&k).cloned().unwrap_or_default();
                for k in 0..last.max(look) + 2 {
                    let want = at(k);
                    if s.get_or_fail(k).map_or(!want.is_empty(), |v| *v != want)
                        || t.get_or_fail(k).map_or(!want.is_empty(), |v| *v != want)
                    {
                        return Err(format!("wrong values at {}", k));
                    }
                }
                if look != 0 && (*s.get(look) != at(look) || *t.get(look) != at(look)) {
                    return Err(format!("wrong values at {}", look));
                }
                let rows: Vec<Vec<usize>> = s.into();
                if rows != (0..last).map(at).collect::<Vec<_>>() {
                    return Err(format!("as a vector it has {} rows, not the {} expected", rows.len(), last));
                }
            }
            o.state(&(i, j, a, b));
            o.trace();
            o.outcome(&(i, a, b));
            if a > 0 && b > 0 && i != j {
                o.nontrivial();
            }
            Ok(())
        },
        |c| format!("{:?} (two indices, two lengths)", c),
    )
}

pub fn check() -> Check {
    Check {
        id: "C04",
        assumptions: vec!["looking at an index to which nothing was pushed may answer with nothing or with an empty row"],
        build: |t| vec![suite(t), many(t)],
    }
}
