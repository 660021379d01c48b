//! Equivalence relations: every short listing of classes, every map of classes.

use mc_common::enumerate::{digits, subsets, Sequences};
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::approximation::equivalence_classes::{EquivalenceClass, EquivalenceRelation};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::Hash;
use std::str::FromStr;

#[derive(Clone)]
pub enum Line<A, B> {
    Class(B, Vec<A>),
    Default(B),
    Skip,
    Bad,
}

use Line::*;

/// What a list of classes means: `None` if it has to be refused, otherwise the map and the
/// default class.  `Err(())`: the property does not say.
pub fn meaning<A: Ord + Clone, B: Ord + Clone>(lines: &[Line<A, B>]) -> Result<Option<(BTreeMap<A, B>, B)>, ()> {
    let mut classes: BTreeMap<B, BTreeSet<A>> = BTreeMap::new();
    let mut defaults: Vec<B> = Vec::new();
    for l in lines {
        match l {
            Class(b, v) => classes.entry(b.clone()).or_default().extend(v.iter().cloned()),
            Default(b) => defaults.push(b.clone()),
            Skip => (),
            Bad => return Ok(None),
        }
    }
    let distinct: BTreeSet<_> = defaults.iter().cloned().collect();
    if distinct.len() != 1 {
        return Ok(None);
    }
    let default = defaults[0].clone();
    if classes.contains_key(&default) {
        return Ok(None);
    }
    let mut map = BTreeMap::new();
    for (b, v) in classes {
        for a in v {
            if map.insert(a, b.clone()).is_some() {
                return Ok(None);
            }
        }
    }
    if defaults.len() > 1 {
        return Err(());
    }
    Ok(Some((map, default)))
}

fn compare<A, B>(got: &EquivalenceRelation<A, B>, map: &BTreeMap<A, B>, default: &B, values: &[A], obs: &mut Obs) -> Verdict
where
    A: Ord + Clone + Eq + Hash + Debug,
    B: Ord + Clone + Eq + Hash + Debug,
{
    for v in values {
        obs.step();
        let e = map.get(v).unwrap_or(default);
        let g = got.project(v);
        if g != *e {
            return Err(format!("{:?} is in class {:?}, not {:?}", v, g, e));
        }
    }
    Ok(())
}

/// A listing read from a text.
fn read<A, B>(text: &str, lines: &[Line<A, B>], values: &[A], obs: &mut Obs) -> Verdict
where
    A: Ord + Clone + Eq + Hash + Debug + FromStr,
    B: Ord + Clone + Eq + Hash + Debug + FromStr,
    A::Err: Debug,
    B::Err: Debug,
{
    let e = meaning(lines);
    let r: Result<EquivalenceRelation<A, B>, String> =
        catch(|| text.parse()).map_err(|p| format!("reading panics: {}", p))?;
    obs.step();
    obs.state(text);
    match (&e, &r) {
        (Err(()), _) => {
            obs.outcome("open");
        }
        (Ok(None), Err(_)) => {
            obs.outcome("refused");
        }
        (Ok(None), Ok(x)) => return Err(format!("read as {:?}", x)),
        (Ok(Some(m)), Err(x)) => return Err(format!("refused ({}), expected {:?}", x, m)),
        (Ok(Some((m, d))), Ok(x)) => {
            compare(x, m, d, values, obs)?;
            obs.outcome(&format!("{:?}{:?}", m, d));
            if m.len() >= 2 {
                obs.nontrivial();
                obs.note(|| format!("{:?}, otherwise {:?}", m, d));
            }
            // the same relation from the parts, when each class has one line
            let labels: BTreeSet<_> = lines.iter().filter_map(|l| if let Class(b, _) = l { Some(b) } else { None }).collect();
            if labels.len() == lines.iter().filter(|l| matches!(l, Class(..))).count() {
                let parts: Vec<EquivalenceClass<A, B>> = lines
                    .iter()
                    .filter_map(|l| match l {
                        Class(b, v) => Some(EquivalenceClass::from((b.clone(), Some(v.clone())))),
                        Default(b) => Some(EquivalenceClass::from((b.clone(), None))),
                        _ => None,
                    })
                    .collect();
                let y = EquivalenceRelation::from(parts);
                compare(&y, m, d, values, obs).map_err(|e| format!("from the parts: {}", e))?;
                if *x != y {
                    return Err(format!("{:?} is read, {:?} is built from the parts", x, y));
                }
            }
        }
    }
    obs.trace();
    Ok(())
}

fn words() -> Vec<(&'static str, Line<String, String>)> {
    let s = |x: &str| x.to_string();
    let c = |l: &str, v: &[&str]| Class(l.to_string(), v.iter().map(|x| x.to_string()).collect());
    vec![
        ("S [a]", c("S", &["a"])),
        ("S [b, a]", c("S", &["a", "b"])),
        ("S []", c("S", &[])),
        ("S [\"a b\", \"]\", a]", c("S", &["a b", "]", "a"])),
        ("  N  [b]  ", c("N", &["b"])),
        ("N [ b ,c ]", c("N", &["b", "c"])),
        ("\"N\" [\"c\"]", c("N", &["c"])),
        ("N [c, c]% all of them", c("N", &["c"])),
        ("R *", Default(s("R"))),
        (" R  * % the rest", Default(s("R"))),
        ("S *", Default(s("S"))),
        ("", Skip),
        (" \t ", Skip),
        ("S", Bad),
        ("[a]", Bad),
        ("*", Bad),
        ("S [a", Bad),
        ("S [a; b]", Bad),
        ("S [a] N [b]", Bad),
        ("S [a]*", Bad),
        ("R * S [a]", Bad),
        ("S a]", Bad),
    ]
}

fn numbers() -> Vec<(&'static str, Line<u8, u8>)> {
    vec![
        ("0 [0]", Class(0, vec![0])),
        ("0 [1, 0]", Class(0, vec![0, 1])),
        ("00 [2]", Class(0, vec![2])),
        ("1 [1, 2, 255]", Class(1, vec![1, 2, 255])),
        ("1 [\"3\"]", Class(1, vec![3])),
        ("2 *", Default(2)),
        ("1 *", Default(1)),
        ("1 [256]", Bad),
        ("1 [-1]", Bad),
        ("1 [x]", Bad),
        ("x [1]", Bad),
        ("x *", Bad),
        ("2 [*]", Bad),
    ]
}

fn listings<A, B>(name: &'static str, menu: Vec<(&'static str, Line<A, B>)>, values: Vec<A>, max: u32) -> Suite
where
    A: Ord + Clone + Eq + Hash + Debug + FromStr + Send + Sync + 'static,
    B: Ord + Clone + Eq + Hash + Debug + FromStr + Send + Sync + 'static,
    A::Err: Debug,
    B::Err: Debug,
{
    let seq = Sequences::new(menu.len(), max);
    let menu = std::sync::Arc::new(menu);
    let m2 = menu.clone();
    let text = move |i: u64| -> (String, Vec<usize>) {
        let d = digits(i, &[seq.len(), 3]);
        let lines = seq.get(d[0] as u64);
        let t: Vec<&str> = lines.iter().map(|&l| m2[l].0).collect();
        (
            match d[1] {
                0 => t.join("\n"),
                1 => t.join("\n") + "\n",
                _ => t.join("\r\n"),
            },
            lines,
        )
    };
    let t2 = text.clone();
    Suite::new(
        name,
        "all sequences of at most 4 (5) lines of a menu of class, default, blank and malformed lines, three kinds of line ends; non-trivial: at least two values are listed",
        seq.len() * 3,
        move |i, o| {
            let (t, l) = text(i);
            let lines: Vec<Line<A, B>> = l.iter().map(|&l| menu[l].1.clone()).collect();
            read(&t, &lines, &values, o)
        },
        move |i| format!("{:?}", t2(i).0),
    )
}

/// Relations built from a map.
fn maps(tier: Tier) -> Suite {
    let n = tier.pick(3usize, 3);
    let sets = subsets(&(0..n as u8).collect::<Vec<_>>(), 0, n);
    let k = sets.len() as u64 + 1;
    let case = move |i: u64| -> (BTreeMap<u8, Vec<u8>>, u8) {
        let d = digits(i, &[k, k, k, 4]);
        let m = (0..3u8).filter(|&c| d[c as usize] > 0).map(|c| (c, sets[d[c as usize] - 1].clone())).collect();
        (m, d[3] as u8)
    };
    let c2 = case.clone();
    Suite::new(
        "maps",
        "all maps of at most three classes to subsets of three values, all default classes, several seeds of the hash maps; non-trivial: at least two values are listed",
        k * k * k * 4,
        move |i, o| {
            let (classes, default) = case(i);
            let mut lines: Vec<Line<u8, u8>> = classes.iter().map(|(&b, v)| Class(b, v.clone())).collect();
            lines.push(Default(default));
            let m: HashMap<u8, HashSet<u8>> = classes.iter().map(|(&b, v)| (b, v.iter().cloned().collect())).collect();
            let e = meaning(&lines).unwrap();
            let r = catch(|| EquivalenceRelation::new_safe(m.clone(), default)).map_err(|p| format!("panics: {}", p))?;
            let q = catch(|| EquivalenceRelation::new(m, default));
            o.step();
            o.state(&(&classes, default));
            match (e, r, q) {
                (None, Err(_), Err(_)) => o.outcome("refused"),
                (Some((m, d)), Ok(x), Ok(y)) => {
                    let values: Vec<u8> = (0..4).collect();
                    compare(&x, &m, &d, &values, o)?;
                    compare(&y, &m, &d, &values, o)?;
                    o.outcome(&(&m, d));
                    if m.len() >= 2 {
                        o.nontrivial();
                        o.note(|| format!("{:?}, otherwise {:?}", m, d));
                    }
                }
                (e, r, q) => return Err(format!("expected {:?}, new_safe: {:?}, new: {:?}", e, r, q)),
            }
            o.trace();
            Ok(())
        },
        move |i| format!("{:?}", c2(i)),
    )
    .seeds(3)
}

/// Equality of relations, and what they know, for all pairs.
fn pairs(tier: Tier) -> Suite {
    let n = tier.pick(3u64, 4);
    // the class of each of n values (the last one: the default class) and the default class
    let radices: Vec<u64> = std::iter::repeat(3).take(n as usize).chain([2]).collect();
    let k: u64 = radices.iter().product();
    let make = move |i: u64| -> (EquivalenceRelation<u8, u8>, Vec<u8>) {
        let d = digits(i, &radices);
        let default = 2 + d[n as usize] as u8;
        let mut m: HashMap<u8, HashSet<u8>> = HashMap::new();
        for (v, &c) in d[..n as usize].iter().enumerate() {
            if c < 2 {
                m.entry(c as u8).or_default().insert(v as u8);
            }
        }
        (EquivalenceRelation::new(m, default), d[..n as usize].iter().map(|&c| if c < 2 { c as u8 } else { default }).chain([default]).collect())
    };
    let m2 = make.clone();
    Suite::new(
        "pairs",
        "all pairs of relations that put each of three (four) values into one of two classes or the default class, with two default classes: \
         equal iff they map all values in the same way; a copy and a relation that is stored and read again are equal; non-trivial: different relations",
        k * k,
        move |i, o| {
            let ((x, e), (y, f)) = (make(i / k), make(i % k));
            o.steps(2);
            o.state(&(&e, &f));
            mc_common::same("equal", &(x == y), &(e == f))?;
            mc_common::same("equal in reverse", &(y == x), &(e == f))?;
            let z = x.clone();
            mc_common::same("a copy is equal", &(z == x, z == y), &(true, e == f))?;
            for (v, c) in (0u8..).zip(&e) {
                mc_common::same("class", &x.project(&v), c)?;
                mc_common::same("class in the copy", &z.project(&v), c)?;
            }
            o.trace();
            o.outcome(&(e == f));
            if e != f { o.nontrivial() }
            Ok(())
        },
        move |i| format!("{:?} and {:?} (classes of the values, default)", m2(i / k).1, m2(i % k).1),
    )
}

pub fn check() -> Check {
    Check {
        id: "C09",
        assumptions: vec![
            "a default class that is declared twice under the same name is neither required nor forbidden",
        ],
        build: |t| {
            vec![
                listings("words", words(), ["a", "b", "c", "a b", "]", "d", ""].iter().map(|s| s.to_string()).collect(), t.pick(4, 5)),
                listings("numbers", numbers(), vec![0, 1, 2, 3, 4, 255], t.pick(4, 5)),
                maps(t),
                pairs(t),
            ]
        },
    }
}
