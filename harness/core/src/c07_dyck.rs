//! Dyck words: every bracket word up to a length, against cancellation of neighbours.

use mc_common::enumerate::{digits, Sequences};
use mc_common::{Check, Obs, Suite, Tier, Verdict};
use rustomata::dyck::{recognize, Bracket};

/// A word is a Dyck word iff cancelling ⟨a⟩a wherever it occurs leaves nothing.
fn cancels(word: &[Bracket<u8>]) -> bool {
    let mut w = word.to_vec();
    'outer: loop {
        for i in 1..w.len() {
            if let (Bracket::Open(a), Bracket::Close(b)) = (&w[i - 1], &w[i]) {
                if a == b {
                    w.drain(i - 1..=i);
                    continue 'outer;
                }
            }
        }
        return w.is_empty();
    }
}

fn run(word: &[Bracket<u8>], obs: &mut Obs) -> Verdict {
    obs.steps(word.len());
    obs.state(word);
    let e = cancels(word);
    let got = recognize(word);
    if got != e {
        return Err(format!("recognised: {}, Dyck word: {}", got, e));
    }
    // the brackets' annotations are compared by value, whatever their type
    let s: Vec<Bracket<String>> = word
        .iter()
        .map(|b| match b {
            Bracket::Open(a) => Bracket::Open(a.to_string()),
            Bracket::Close(a) => Bracket::Close(a.to_string()),
        })
        .collect();
    if recognize(&s) != e {
        return Err(format!("with strings: recognised: {}, Dyck word: {}", !e, e));
    }
    for (b, s) in word.iter().zip(&s) {
        let (x, y) = (format!("{}", b), format!("{}", s));
        if x != y
            || match b {
                Bracket::Open(a) => x != format!("⟨{}", a),
                Bracket::Close(a) => x != format!("⟩{}", a),
            }
        {
            return Err(format!("printed as {}", x));
        }
    }
    obs.trace();
    obs.outcome(&(e, word.len()));
    if e && word.len() >= 4 {
        obs.nontrivial();
    }
    Ok(())
}

fn words(name: &'static str, kinds: usize, max: u32) -> Suite {
    let s = Sequences::new(2 * kinds, max);
    let get = move |i: u64| -> Vec<Bracket<u8>> {
        s.get(i)
            .into_iter()
            .map(|l| {
                let a = (l / 2) as u8;
                if l % 2 == 0 {
                    Bracket::Open(a)
                } else {
                    Bracket::Close(a)
                }
            })
            .collect()
    };
    Suite::new(
        name,
        format!(
            "all words of at most {} brackets of {} kinds; non-trivial: Dyck words of length at least 4",
            max, kinds
        ),
        s.len(),
        move |i, o| run(&get(i), o),
        move |i| get(i).iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" "),
    )
}

/// Deep and long words, each also with one bracket missing, added or changed.
fn deep(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(40usize, 70)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 65535, 65536, 65537]) {
        for m in [1usize, 2, 3] {
            for kind in 0..4 {
                for change in 0..5 {
                    cases.push((n, m, kind, change));
                }
            }
        }
    }
    Suite::over(
        "deep",
        "words of n pairs with annotations modulo 1, 2 or 3, for all n up to 40 (70) and some up to 65537: nested, in a row, \
         nested in a row and in two nests; each also without its last bracket, with one more, with the first one \
         changed, and with a changed one in the middle; non-trivial: Dyck words",
        cases,
        |&(n, m, kind, change), o| {
            let ann = |i: usize| i % m;
            let nest = |from: usize, to: usize, w: &mut Vec<Bracket<usize>>| {
                w.extend((from..to).map(|i| Bracket::Open(ann(i))));
                w.extend((from..to).rev().map(|i| Bracket::Close(ann(i))));
            };
            let mut w = Vec::new();
            match kind {
                0 => nest(0, n, &mut w),
                1 => (0..n).for_each(|i| nest(i, i + 1, &mut w)),
                2 => { w.push(Bracket::Open(0)); (1..n).for_each(|i| nest(i, i + 1, &mut w)); w.push(Bracket::Close(0)) }
                _ => { nest(0, n / 2, &mut w); nest(n / 2, n, &mut w) }
            }
            let e = change == 0;
            match change {
                0 => (),
                1 => { w.pop(); }
                2 => w.push(Bracket::Close(ann(0))),
                3 => w[0] = Bracket::Open(m),
                _ => { let at = w.len() / 2; w[at] = match &w[at] { Bracket::Open(_) => Bracket::Open(m), Bracket::Close(_) => Bracket::Close(m) } }
            }
            if recognize(&w) != e {
                return Err(format!("recognised: {}, Dyck word: {}", !e, e));
            }
            o.steps(w.len());
            o.trace();
            o.state(&(n, m, kind, change));
            o.outcome(&(e, n));
            if e { o.nontrivial() }
            Ok(())
        },
        |c| format!("{:?} (pairs, annotations, shape, change)", c),
    )
}

/// Every short word, Dyck word or not, at every place of longer words.
fn contexts(tier: Tier) -> Suite {
    let depths: Vec<usize> = (0..=tier.pick(10usize, 20)).chain([33]).collect();
    let s = Sequences::new(4, tier.pick(5, 6));
    let radices = [s.len(), depths.len() as u64, 3, 4];
    let get = move |i: u64| -> Vec<Bracket<u8>> {
        let d = digits(i, &radices);
        let depth = depths[d[1]];
        let ann = |i: usize| match d[2] { 0 => 0, 1 => (i % 2) as u8, _ => 2 };
        let mut w: Vec<Bracket<u8>> = (0..depth).map(|i| Bracket::Open(ann(i))).collect();
        let row = |n: usize, w: &mut Vec<Bracket<u8>>| (0..n).for_each(|i| {
            w.push(Bracket::Open((i % 2) as u8));
            w.push(Bracket::Close((i % 2) as u8));
        });
        match d[3] { 1 => row(5, &mut w), 2 => row(12, &mut w), _ => () }
        w.extend(s.get(d[0] as u64).into_iter().map(|l| if l % 2 == 0 { Bracket::Open((l / 2) as u8) } else { Bracket::Close((l / 2) as u8) }));
        if d[3] == 3 { row(3, &mut w) }
        w.extend((0..depth).rev().map(|i| Bracket::Close(ann(i))));
        w
    };
    let g2 = get.clone();
    Suite::new(
        "contexts",
        "all words of at most 5 (6) brackets of two kinds, in nests of depth 0 to 10 (20) and 33 of one, two or other kinds, without and with \
         rows of pairs before or behind them; non-trivial: Dyck words of length at least 4",
        radices.iter().product(),
        move |i, o| run(&get(i), o),
        move |i| g2(i).iter().map(|b| b.to_string()).collect::<Vec<_>>().join(" "),
    )
}

pub fn check() -> Check {
    Check {
        id: "C07",
        assumptions: vec![],
        build: |t: Tier| {
            vec![
                words("one-kind", 1, t.pick(14, 18)),
                words("two-kinds", 2, t.pick(8, 10)),
                words("three-kinds", 3, t.pick(6, 8)),
                contexts(t),
                deep(t),
            ]
        },
    }
}
