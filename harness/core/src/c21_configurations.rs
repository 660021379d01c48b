//! Configurations of automata: comparison, equality and hashing of all pairs and triples.

use mc_common::enumerate::words;
use mc_common::{hash_of, Check, Obs, Suite, Tier, Verdict};
use rustomata::recognisable::configuration::Configuration;
use std::cmp::Ordering;
use std::sync::Arc;

type Conf = Configuration<Vec<u8>, u8, i8>;

fn all(max_word: u32, max_storage: u32, weights: &[i8]) -> Vec<Conf> {
    let mut v = Vec::new();
    for word in words(&[0u8, 1], max_word) {
        for storage in words(&[0u8, 1], max_storage) {
            for weight in weights {
                v.push(Configuration { word: word.clone(), storage: storage.clone(), weight: *weight });
            }
        }
    }
    v
}

/// What comes first: the greater weight; then fewer symbols left to read.
fn better(a: &Conf, b: &Conf) -> Option<Ordering> {
    match a.weight.cmp(&b.weight).then(b.word.len().cmp(&a.word.len())) {
        Ordering::Equal => None,
        o => Some(o),
    }
}

fn pair(a: &Conf, b: &Conf) -> Result<Ordering, String> {
    let c = a.cmp(b);
    if let Some(o) = better(a, b) {
        if c != o {
            return Err(format!("compared with {:?}: {:?}, should be {:?}", b, c, o));
        }
    }
    let same = a.word == b.word && a.storage == b.storage;
    if (c == Ordering::Equal) != (same && a.weight == b.weight) {
        return Err(format!("compared with {:?}: {:?}", b, c));
    }
    if b.cmp(a) != c.reverse() || a.partial_cmp(b) != Some(c) {
        return Err(format!("compared with {:?}: {:?}, conversely {:?}, partially {:?}", b, c, b.cmp(a), a.partial_cmp(b)));
    }
    // two configurations that differ in their weights only are the same state of a search
    if (a == b) != same || (a != b) == same {
        return Err(format!("equal to {:?}: {}", b, a == b));
    }
    if same && hash_of(a) != hash_of(b) {
        return Err(format!("equal to {:?}, but the hash values differ", b));
    }
    Ok(c)
}

fn pairs(tier: Tier) -> Suite {
    let cs = all(tier.pick(4, 5), tier.pick(4, 5), &[-1, 0, 1]);
    let copy = Arc::new(cs.clone());
    Suite::over(
        "pairs",
        "all pairs of configurations with up to 4 (5) symbols to read, storages of up to 4 (5), and three weights, one case for \
         each first one: greater weight first, then fewer symbols to read; equality and hash ignore the weight; comparison \
         is antisymmetric and total",
        cs,
        move |a, o| {
            let mut less = 0;
            for b in copy.iter() {
                if pair(a, b)? == Ordering::Greater {
                    less += 1;
                }
                o.step();
            }
            let text = format!("{}", Configuration { word: a.word.clone(), storage: 7, weight: a.weight });
            let word: Vec<String> = a.word.iter().map(|w| w.to_string()).collect();
            if !text.contains(&format!("[{}]", word.join(" "))) || !text.contains(&a.weight.to_string()) || !text.contains('7') {
                return Err(format!("printed as {:?}", text));
            }
            o.state(a);
            o.outcome(&less);
            o.trace();
            if !a.word.is_empty() && !a.storage.is_empty() {
                o.nontrivial();
            }
            Ok(())
        },
        |c| format!("{:?}", c),
    )
}

fn order(tier: Tier) -> Suite {
    Suite::new(
        "order",
        "the same configurations: no two have the same number of smaller ones, so that (with the suite pairs) comparison is \
         transitive; sorting them puts them best first",
        1,
        move |_, o: &mut Obs| -> Verdict {
            let mut cs = all(tier.pick(4, 5), tier.pick(4, 5), &[-1, 0, 1]);
            let mut owner: Vec<Option<Conf>> = vec![None; cs.len()];
            for a in &cs {
                let smaller = cs.iter().filter(|b| a.cmp(b) == Ordering::Greater).count();
                if let Some(b) = owner[smaller].replace(a.clone()) {
                    return Err(format!("{:?} and {:?} have the same number of smaller configurations", a, b));
                }
                o.steps(cs.len());
                o.outcome(&smaller);
            }
            cs.sort();
            if cs.windows(2).any(|w| better(&w[0], &w[1]) == Some(Ordering::Greater)) {
                return Err("sorting does not order by weight and number of symbols".into());
            }
            o.trace();
            o.nontrivial();
            Ok(())
        },
        |_| "all of them".to_string(),
    )
    .limit(600)
}

/// Long words, partially ordered weights.
fn large(tier: Tier) -> Suite {
    let lens: Vec<usize> = (0..=tier.pick(20, 40)).chain([63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 65535, 65536]).collect();
    let mut cases = Vec::new();
    for a in &lens {
        for b in &lens {
            cases.push((*a, *b));
        }
    }
    Suite::over(
        "large",
        "all pairs of configurations that read up to 20 (40) and some of up to 65536 symbols, with equal and with \
         different weights, and with floating-point weights",
        cases,
        |&(a, b), o| {
            let conf = |n: usize, storage: u8, weight: i8| Configuration { word: vec![1u8; n], storage: vec![storage], weight };
            for (s, t, v, w) in [(0, 0, 0, 0), (0, 1, 0, 0), (1, 0, 0, 0), (0, 0, 1, 0), (1, 0, 0, 1)] {
                pair(&conf(a, s, v), &conf(b, t, w)).map_err(|_| format!("storages {} and {}, weights {} and {}", s, t, v, w))?;
                o.step();
                let f = |n: usize, s: u8, w: i8| Configuration { word: vec![1u8; n], storage: s, weight: w as f64 / 4.0 };
                let c = f(a, s, v).partial_cmp(&f(b, t, w));
                let e = conf(a, s, v).cmp(&conf(b, t, w));
                if c != Some(e) {
                    return Err(format!("with floating-point weights: {:?}, not {:?}", c, e));
                }
            }
            o.trace();
            o.state(&(a, b));
            o.outcome(&(a.cmp(&b)));
            if a != b {
                o.nontrivial();
            }
            Ok(())
        },
        |c| format!("{:?} symbols", c),
    )
}

pub fn check() -> Check {
    Check { id: "C21", assumptions: vec![], build: |t: Tier| vec![pairs(t), order(t), large(t)] }
}
