//! The two pushdown storages: all sequences of operations, and all replacements on all small
//! pushdowns, against a list.

use mc_common::enumerate::words;
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use rustomata::automata::push_down_automaton::{PushDown, PushDownInstruction};
use rustomata::recognisable::Instruction;
use rustomata::util::push_down::Pushdown;
use std::cmp::Ordering;

/// bottom first
fn build(m: &[u8]) -> Pushdown<u8> {
    let mut p = Pushdown::new();
    for v in m {
        p = p.push(*v);
    }
    p
}

fn same(p: &Pushdown<u8>, m: &[u8]) -> Verdict {
    if p.to_vec() != m {
        return Err(format!("it is {:?}, not {:?}", p.to_vec(), m));
    }
    if p.is_empty() != m.is_empty() || p.peek() != m.last().cloned() || p.peek_ref() != m.last() {
        return Err(format!("empty: {}, on top: {:?}, {:?}; it is {:?}", p.is_empty(), p.peek(), p.peek_ref(), m));
    }
    Ok(())
}

fn inspect(p: &Pushdown<u8>, m: &[u8]) -> Verdict {
    same(p, m)?;
    let v: Vec<u8> = p.clone().into();
    let i: Vec<u8> = p.iter().collect();
    if v != m || i != m {
        return Err(format!("as a vector: {:?}, iterated: {:?}, not {:?}", v, i, m));
    }
    let mapped = p.map(&mut |v| *v as u32 + 10);
    if !mapped.to_vec().into_iter().eq(m.iter().map(|v| *v as u32 + 10)) {
        return Err(format!("mapped: {:?}", mapped.to_vec()));
    }
    if *p != Pushdown::from(m) || Pushdown::from(m) != build(m) {
        return Err("it differs from the one built from its symbols".into());
    }
    same(p, m).map_err(|e| format!("after looking at it, {}", e))
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Push(u8),
    Set(u8),
    Pop,
}

fn perform(p: &Pushdown<u8>, m: &[u8], op: Op) -> Result<(Pushdown<u8>, Vec<u8>), String> {
    let mut n = m.to_vec();
    let p2 = match op {
        Op::Push(v) => {
            n.push(v);
            p.clone().push(v)
        }
        Op::Set(v) => {
            let refused = m.is_empty();
            if let Some(t) = n.last_mut() {
                *t = v;
            }
            match p.clone().set(v) {
                Ok(p) if !refused => p,
                Err(p) if refused => p,
                r => return Err(format!("{:?} is accepted: {}", op, r.is_ok())),
            }
        }
        Op::Pop => match (p.clone().pop(), n.pop()) {
            (Ok((p, v)), Some(w)) if v == w => p,
            (Err(p), None) => p,
            (r, w) => return Err(format!("the symbol taken is {:?}, not {:?}", r.ok().map(|x| x.1), w)),
        },
    };
    inspect(&p2, &n).map_err(|e| format!("after {:?}, {}", op, e))?;
    Ok((p2, n))
}

fn explore(p: &Pushdown<u8>, m: &[u8], ops: &[Op], depth: usize, path: &mut Vec<Op>, obs: &mut Obs) -> Verdict {
    obs.state(m);
    if depth == 0 {
        obs.trace();
        obs.outcome(m);
        if m.len() > 1 {
            obs.nontrivial();
        }
        return Ok(());
    }
    for op in ops {
        path.push(*op);
        obs.step();
        let (p2, m2) = perform(p, m, *op).map_err(|e| format!("{:?}: {}", path, e))?;
        explore(&p2, &m2, ops, depth - 1, path, obs)?;
        same(p, m).map_err(|e| format!("after {:?}, the pushdown before it has changed: {}", path, e))?;
        path.pop();
    }
    Ok(())
}

fn operations(values: u8) -> Vec<Op> {
    let mut v = vec![Op::Pop];
    for a in 0..values {
        v.push(Op::Push(a));
        v.push(Op::Set(a));
    }
    v
}

fn sequences(name: &'static str, values: u8, depth: usize) -> Suite {
    let ops = operations(values);
    let n = ops.len() as u64;
    let ops2 = ops.clone();
    Suite::new(
        name,
        format!(
            "all sequences of {} of {} operations (push, pop, set; {} values) on a Pushdown, one case for the first two; after \
             each one everything is compared, and all earlier pushdowns once more; non-trivial: two symbols at the end",
            depth,
            ops.len(),
            values
        ),
        n * n,
        move |i, o| {
            let mut path = vec![ops[(i / n) as usize], ops[(i % n) as usize]];
            let (mut p, mut m) = (Pushdown::new(), Vec::new());
            inspect(&p, &m)?;
            inspect(&Pushdown::default(), &m)?;
            for op in path.clone() {
                let (p2, m2) = perform(&p, &m, op)?;
                p = p2;
                m = m2;
            }
            explore(&p, &m, &ops, depth - 2, &mut path, o)
        },
        move |i| format!("{:?} {:?}", ops2[(i / n) as usize], ops2[(i % n) as usize]),
    )
}

/// All pairs of pushdowns: equality and order.
fn pairs(tier: Tier) -> Suite {
    let all: Vec<Vec<u8>> = words(&[0u8, 1, 2], tier.pick(6, 7));
    let copy = all.clone();
    Suite::over(
        "pairs",
        "all pairs of pushdowns of up to 6 (7) of three symbols, of both kinds: equal iff the same, comparison is \
         antisymmetric, total, and agrees with equality; every copy equals its original whether or not it shares memory",
        all,
        move |m, o| {
            let p = build(m);
            let q = PushDown::from(m.clone());
            for m2 in &copy {
                let p2 = build(m2);
                let q2 = PushDown::from(m2.clone());
                let (c, d) = (p.cmp(&p2), q.cmp(&q2));
                o.step();
                for (kind, eq, c, back, partial) in [
                    ("Pushdown", p == p2, c, p2.cmp(&p), p.partial_cmp(&p2)),
                    ("PushDown", q == q2, d, q2.cmp(&q), q.partial_cmp(&q2)),
                ] {
                    if eq != (m == m2) || (c == Ordering::Equal) != eq || back != c.reverse() || partial != Some(c) {
                        return Err(format!(
                            "{} compared with {:?}: equal: {}, {:?}, conversely {:?}, partially {:?}",
                            kind, m2, eq, c, back, partial
                        ));
                    }
                }
                // shared memory below
                if let Ok((below, _)) = p.clone().pop() {
                    let again = below.clone().push(*m.last().unwrap());
                    if again != p || again.cmp(&p) != Ordering::Equal || p == below || p == p.clone().push(0) {
                        return Err("pushdowns that share memory are compared wrongly".into());
                    }
                }
                if p.clone() != p {
                    return Err("a copy differs".into());
                }
            }
            o.trace();
            o.state(m);
            o.outcome(m);
            o.nontrivial();
            Ok(())
        },
        |m| format!("{:?}", m),
    )
}

/// The result of replacing `from` (top first) by `to` (bottom first).
fn replaced(m: &[u8], from: &[u8], to: &[u8]) -> Option<Vec<u8>> {
    if from.len() > m.len() || from.iter().zip(m.iter().rev()).any(|(a, b)| a != b) {
        return None;
    }
    let mut r = m[..m.len() - from.len()].to_vec();
    r.extend(to);
    Some(r)
}

fn contents(p: &PushDown<u8>) -> Vec<u8> {
    p.iter().cloned().collect()
}

fn check_replace(p: &PushDown<u8>, m: &[u8], from: &[u8], to: &[u8]) -> Result<Option<PushDown<u8>>, String> {
    let e = replaced(m, from, to);
    let i = PushDownInstruction::Replace { current_val: from.to_vec(), new_val: to.to_vec() };
    let applied = i.apply(p.clone());
    let direct = p.clone().replace(from, to);
    if contents(p) != m {
        return Err(format!("the pushdown itself has changed to {:?}", p));
    }
    match (&applied[..], direct, e) {
        ([], Err(q), None) => {
            if q != *p {
                return Err(format!("replacing {:?} by {:?} is refused, but it changes to {:?}", from, to, q));
            }
            Ok(None)
        }
        ([a], Ok(d), Some(e)) => {
            if contents(a) != e || contents(&d) != e || *a != PushDown::from(e.clone()) {
                return Err(format!("replacing {:?} by {:?} yields {:?} and {:?}, not {:?}", from, to, a, d, e));
            }
            Ok(Some(d))
        }
        (a, d, e) => Err(format!("replacing {:?} by {:?} yields {:?} and {:?}, not {:?}", from, to, a, d.ok(), e)),
    }
}

fn look(p: &PushDown<u8>, m: &[u8]) -> Verdict {
    if contents(p) != m || p.is_bottom() != (m.len() == 1) {
        return Err(format!("{:?}, at the bottom: {}, should be {:?}", p, p.is_bottom(), m));
    }
    if !m.is_empty() && (p.current_symbol() != m.last().unwrap() || p.empty() != &m[0]) {
        return Err(format!("{:?}: current {}, empty symbol {}", p, p.current_symbol(), p.empty()));
    }
    if contents(&p.map(&|v| v + 10)) != m.iter().map(|v| v + 10).collect::<Vec<_>>() {
        return Err(format!("mapped, it is {:?}", p.map(&|v| v + 10)));
    }
    let mut seen = Vec::new();
    let mapped = p.map_mut(&mut |v| {
        seen.push(*v);
        seen.len() as u8
    });
    if seen != m || contents(&mapped) != (1..=m.len() as u8).collect::<Vec<_>>() {
        return Err(format!("mapped in order, it is {:?}", mapped));
    }
    if m.len() == 2 && PushDown::new(m[0], m[1]) != *p {
        return Err("it differs from a new one with its symbols".into());
    }
    Ok(())
}

fn replacements(name: &'static str, symbols: u8, depth: u32, top: u32) -> Suite {
    let s: Vec<u8> = (0..symbols).collect();
    let all = words(&s, depth);
    let changes = words(&s, top);
    Suite::over(
        name,
        format!(
            "all PushDowns of up to {} of {} symbols × all replacements of up to {} symbols by up to {}; \
             non-trivial: a replacement applies",
            depth, symbols, top, top
        ),
        all,
        move |m, o| {
            let p = PushDown::from(m.clone());
            look(&p, m)?;
            for from in &changes {
                for to in &changes {
                    o.step();
                    if let Some(q) = check_replace(&p, m, from, to)? {
                        look(&q, &contents(&q))?;
                        o.outcome(&contents(&q));
                        o.nontrivial();
                    }
                }
            }
            o.trace();
            o.state(m);
            Ok(())
        },
        |m| format!("{:?}", m),
    )
}

fn runs(tier: Tier) -> Suite {
    let s = [0u8, 1];
    let mut is: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    for from in words(&s, 2) {
        for to in words(&s, 2) {
            is.push((from.clone(), to));
        }
    }
    let depth = tier.pick(5, 6);
    let is2 = is.clone();
    fn go(p: &PushDown<u8>, m: &[u8], is: &[(Vec<u8>, Vec<u8>)], depth: usize, o: &mut Obs) -> Verdict {
        o.state(m);
        if depth == 0 {
            o.trace();
            o.outcome(m);
            return Ok(());
        }
        for (from, to) in is {
            o.step();
            if let Some(q) = check_replace(p, m, from, to)? {
                let n = contents(&q);
                if n.len() > 2 {
                    o.nontrivial();
                }
                go(&q, &n, is, depth - 1, o).map_err(|e| format!("{:?} by {:?}, {}", from, to, e))?;
            }
        }
        if contents(p) != m {
            return Err("an earlier pushdown has changed".into());
        }
        Ok(())
    }
    Suite::over(
        "runs",
        "all sequences of 5 (6) replacements of up to two by up to two of two symbols on a PushDown with two symbols, one case for \
         each of the first; non-trivial: it grows",
        is,
        move |(from, to), o| {
            let p = PushDown::new(0, 1);
            match check_replace(&p, &[0, 1], from, to)? {
                None => Ok(()),
                Some(q) => {
                    let m = contents(&q);
                    go(&q, &m, &is2, depth - 1, o)
                }
            }
        },
        |(f, t)| format!("{:?} by {:?}", f, t),
    )
}

fn large(tier: Tier) -> Suite {
    let cases: Vec<usize> = (1..=tier.pick(40usize, 80)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4096]).collect();
    Suite::over(
        "large",
        "pushdowns of both kinds with up to 40 (80) and some of up to 4096 symbols: built, read, changed on top and taken apart, \
         replaced from every depth",
        cases,
        |&n, o| {
            let m: Vec<u8> = (0..n).map(|i| (i * i % 251) as u8).collect();
            let mut p = build(&m);
            inspect(&p, &m)?;
            let q = PushDown::from(m.clone());
            for k in (0..=n).filter(|k| *k < 20 || k % 16 < 2 || *k == n) {
                let from: Vec<u8> = m.iter().rev().take(k).cloned().collect();
                for to in [vec![], vec![7], m.clone()] {
                    if check_replace(&q, &m, &from, &to).map_err(|e| e.chars().take(300).collect::<String>())?.is_none() {
                        return Err("refused".into());
                    }
                }
                let mut other = from.clone();
                if let Some(x) = other.last_mut() {
                    *x = x.wrapping_add(1);
                    check_replace(&q, &m, &other, &[7])?;
                }
            }
            let mut left = m.clone();
            while let Some(x) = left.pop() {
                let (below, y) = p.clone().pop().map_err(|_| "it is empty too early")?;
                if x != y || below.peek() != left.last().cloned() {
                    return Err(format!("{} instead of {} is taken", y, x));
                }
                let changed = p.clone().set(x.wrapping_add(1)).map_err(|_| "set is refused")?;
                if changed.peek() != Some(x.wrapping_add(1)) || changed.clone().pop().map(|r| r.0) != Ok(below.clone()) {
                    return Err("set changes more than the top".into());
                }
                p = below;
                o.step();
            }
            if !p.is_empty() {
                return Err("it is not empty at the end".into());
            }
            o.trace();
            o.state(&n);
            o.outcome(&n);
            if n > 1 {
                o.nontrivial();
            }
            Ok(())
        },
        |n| format!("{} symbols", n),
    )
}

pub fn check() -> Check {
    Check {
        id: "C23",
        assumptions: vec![],
        build: |t: Tier| {
            vec![
                large(t),
                sequences("sequences-2", 2, t.pick(11, 12)),
                sequences("sequences-3", 3, t.pick(9, 10)),
                pairs(t),
                replacements("replacements-2", 2, t.pick(9, 10), t.pick(5, 6)),
                replacements("replacements-3", 3, t.pick(7, 8), t.pick(4, 4)),
                runs(t),
            ]
        },
    }
}
