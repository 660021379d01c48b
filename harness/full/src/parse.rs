//! What the checks of parsing have in common: exact weights, bounded enumeration of parses, and
//! the comparison of what was found with what there is.

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Display};
use std::ops::{Add, AddAssign, Div, Mul, MulAssign};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::str::FromStr;

use num_traits::{One, Zero};
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::Instruction;
use rustomata::util::factorizable::Factorizable;
use serde::{Deserialize, Serialize};

thread_local! {
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
}

struct OutOfBudget;

fn spend() {
    BUDGET.with(|b| {
        let left = b.get();
        if left == 0 {
            resume_unwind(Box::new(OutOfBudget));
        }
        b.set(left - 1);
    })
}

/// The weight 2^-c, or 0.  Every multiplication is paid from the thread's budget, so that
/// endless searches come back.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Cost(pub Option<i64>);

impl PartialOrd for Cost {
    fn partial_cmp(&self, o: &Cost) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Cost {
    fn cmp(&self, o: &Cost) -> std::cmp::Ordering {
        match (self.0, o.0) {
            (Some(a), Some(b)) => b.cmp(&a),
            (a, b) => a.is_some().cmp(&b.is_some()),
        }
    }
}
impl Mul for Cost {
    type Output = Cost;
    fn mul(self, o: Cost) -> Cost {
        spend();
        Cost(self.0.and_then(|a| o.0.map(|b| a + b)))
    }
}
impl MulAssign for Cost {
    fn mul_assign(&mut self, o: Cost) {
        *self = *self * o
    }
}
impl Div for Cost {
    type Output = Cost;
    fn div(self, o: Cost) -> Cost {
        Cost(self.0.map(|a| a - o.0.expect("division by zero")))
    }
}
impl Add for Cost {
    type Output = Cost;
    fn add(self, o: Cost) -> Cost {
        match (self.0, o.0) {
            (None, _) => o,
            (_, None) => self,
            (Some(a), Some(b)) if a == b => Cost(Some(a - 1)),
            _ => panic!("2^-{:?} + 2^-{:?} is not a power of two", self.0, o.0),
        }
    }
}
impl AddAssign for Cost {
    fn add_assign(&mut self, o: Cost) {
        *self = *self + o
    }
}
impl Factorizable for Cost {
    fn factorize(self, n: usize) -> Vec<Cost> {
        assert!(n > 0 && self.0.map_or(true, |c| c % n as i64 == 0), "cost {:?} cannot be divided by {}", self.0, n);
        vec![Cost(self.0.map(|c| c / n as i64)); n]
    }
}
impl One for Cost {
    fn one() -> Cost {
        Cost(Some(0))
    }
}
impl Zero for Cost {
    fn zero() -> Cost {
        Cost(None)
    }
    fn is_zero(&self) -> bool {
        self.0.is_none()
    }
}
impl FromStr for Cost {
    type Err = String;
    fn from_str(s: &str) -> Result<Cost, String> {
        s.parse().map(|c| Cost(Some(c))).map_err(|_| format!("not a cost: {}", s))
    }
}
impl Display for Cost {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0.expect("zero"))
    }
}
impl Debug for Cost {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self.0 {
            Some(c) => write!(f, "2^-{}", c),
            None => write!(f, "0"),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    /// there are no more parses
    Done,
    /// as many as asked for were found
    Enough,
    /// the search went on for too long
    Budget,
}

/// Takes up to `n` parses within the budget, and then up to `more` within a small budget.
pub fn collect<X, It: Iterator<Item = X>>(
    make: impl FnOnce() -> It,
    n: usize,
    budget: u64,
    more: usize,
    more_budget: u64,
) -> Result<(Vec<X>, End), String> {
    let mut found = Vec::new();
    BUDGET.with(|b| b.set(budget));
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut it = make();
        while found.len() < n {
            match it.next() {
                Some(x) => found.push(x),
                None => return End::Done,
            }
        }
        BUDGET.with(|b| b.set(more_budget));
        while found.len() < n + more {
            match it.next() {
                Some(x) => found.push(x),
                None => return End::Done,
            }
        }
        End::Enough
    }));
    BUDGET.with(|b| b.set(u64::MAX));
    match r {
        Ok(e) => Ok((found, e)),
        Err(p) if p.is::<OutOfBudget>() => Ok((found, End::Budget)),
        Err(p) => resume_unwind(p),
    }
}

/// The value, if no weight gets too long for an exact representation.
pub fn within_precision<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(p) if p.is::<OutOfBudget>() => None,
        Err(p) => resume_unwind(p),
    }
}

/// `found` (best first, so far) against all parses of a cost of at most `bound`.
/// `valid` gives the cost of a parse of the word, whatever its cost.
pub fn compare<R: Ord + Clone + Debug>(
    expected: &BTreeMap<R, i64>,
    bound: i64,
    found: &[(Cost, R)],
    end: End,
    all: bool,
    valid: &dyn Fn(&R) -> Option<i64>,
) -> Result<(), String> {
    let mut seen: BTreeMap<R, Cost> = BTreeMap::new();
    let mut last: Option<Cost> = None;
    for (i, (w, r)) in found.iter().enumerate() {
        match (w.0, valid(r)) {
            (_, None) => return Err(format!("number {}, {:?}, is not a parse of the word", i, r)),
            (c, e) if c != e => return Err(format!("number {}, {:?}, has cost {:?}, not {:?}", i, r, c, e)),
            _ => (),
        }
        if last.map_or(false, |l| l < *w) {
            return Err(format!("number {}, {:?}, with weight {:?} comes after one with weight {:?}", i, r, w, last.unwrap()));
        }
        last = Some(*w);
        if seen.insert(r.clone(), *w).is_some() {
            return Err(format!("number {}, {:?}, is found for the second time", i, r));
        }
        if w.0.unwrap() <= bound && !expected.contains_key(r) {
            return Err(format!("{:?} is not expected (the model is incomplete)", r));
        }
    }
    if all {
        // nothing better is missing: everything up to the cost of the last one, or everything
        let complete = match end {
            End::Done => bound,
            _ => last.map_or(-1, |l| l.0.unwrap() - 1).min(bound),
        };
        for (r, c) in expected {
            if *c <= complete && !seen.contains_key(r) {
                return Err(format!("{:?} with cost {} is not found ({:?} after {} parses)", r, c, end, found.len()));
            }
        }
        if end == End::Budget && found.len() < expected.len() {
            return Err(format!("only {} of {} parses are found within the budget", found.len(), expected.len()));
        }
    }
    Ok(())
}

/// A dyadic rational number m·2^-e with odd m, or 0.  Products are paid from the budget.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Dyadic {
    m: u128,
    e: i64,
}

impl Dyadic {
    pub fn new(mut m: u128, mut e: i64) -> Dyadic {
        if m == 0 {
            return Dyadic { m: 0, e: 0 };
        }
        while m % 2 == 0 {
            m /= 2;
            e -= 1;
        }
        Dyadic { m, e }
    }
    /// 2^-c
    pub fn cost(c: i64) -> Dyadic {
        Dyadic { m: 1, e: c }
    }
    /// The c of 2^-c, if it is a power of two.
    pub fn as_cost(self) -> Option<i64> {
        if self.m == 1 { Some(self.e) } else { None }
    }
}
impl Ord for Dyadic {
    fn cmp(&self, o: &Dyadic) -> std::cmp::Ordering {
        if self.m == 0 || o.m == 0 {
            return self.m.cmp(&o.m);
        }
        let top = |d: &Dyadic| 127 - d.m.leading_zeros() as i64 - d.e;
        top(self).cmp(&top(o)).then_with(|| (self.m << self.m.leading_zeros()).cmp(&(o.m << o.m.leading_zeros())))
    }
}
impl PartialOrd for Dyadic {
    fn partial_cmp(&self, o: &Dyadic) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Mul for Dyadic {
    type Output = Dyadic;
    fn mul(self, o: Dyadic) -> Dyadic {
        spend();
        if self.m == 0 || o.m == 0 {
            return Dyadic { m: 0, e: 0 };
        }
        // (a search that multiplies that much does not end)
        let m = self.m.checked_mul(o.m).unwrap_or_else(|| resume_unwind(Box::new(OutOfBudget)));
        Dyadic { m, e: self.e + o.e }
    }
}
impl MulAssign for Dyadic {
    fn mul_assign(&mut self, o: Dyadic) {
        *self = *self * o
    }
}
impl Div for Dyadic {
    type Output = Dyadic;
    fn div(self, o: Dyadic) -> Dyadic {
        assert!(o.m == 1, "division by something else than a power of two");
        Dyadic { m: self.m, e: self.e - o.e }
    }
}
impl Add for Dyadic {
    type Output = Dyadic;
    fn add(self, o: Dyadic) -> Dyadic {
        if self.m == 0 || o.m == 0 {
            return if self.m == 0 { o } else { self };
        }
        let e = self.e.max(o.e);
        let up = |d: Dyadic| {
            assert!(e - d.e < d.m.leading_zeros() as i64, "a sum of weights is too long");
            d.m << (e - d.e)
        };
        Dyadic::new(up(self) + up(o), e)
    }
}
impl AddAssign for Dyadic {
    fn add_assign(&mut self, o: Dyadic) {
        *self = *self + o
    }
}
impl One for Dyadic {
    fn one() -> Dyadic {
        Dyadic { m: 1, e: 0 }
    }
}
impl Zero for Dyadic {
    fn zero() -> Dyadic {
        Dyadic { m: 0, e: 0 }
    }
    fn is_zero(&self) -> bool {
        self.m == 0
    }
}
impl FromStr for Dyadic {
    type Err = String;
    fn from_str(s: &str) -> Result<Dyadic, String> {
        s.parse().map(Dyadic::cost).map_err(|_| format!("not a cost: {}", s))
    }
}
impl Debug for Dyadic {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}·2^-{}", self.m, self.e)
    }
}

/// Widths of beams, and whether they are never exceeded.
pub const WIDTHS: [(usize, bool); 7] = [(0, false), (1, false), (2, false), (3, false), (5, false), (100_000, true), (usize::MAX, true)];

/// The number of leaves of the tree of all (partial) runs of the automaton for a word: there are
/// never more open configurations at a time.  `None` if there are too many or endless ones.
pub fn open_at_most<A, T>(a: &A, word: &[T], cap: usize) -> Option<usize>
where
    A: Automaton<T, Cost>,
    A::I: Clone + Instruction,
    A::IInt: Clone + Eq + Instruction,
    <A::I as Instruction>::Storage: Clone,
    T: Clone + PartialEq,
{
    let ts: Vec<_> = a.transitions().map(|t| (t.word, t.instruction)).collect();
    let (mut leaves, mut nodes) = (0, 0);
    let mut open = vec![(a.initial(), 0)];
    while let Some((s, at)) = open.pop() {
        let before = open.len();
        for (w, i) in &ts {
            if word[at..].starts_with(w) {
                open.extend(i.apply(s.clone()).into_iter().map(|s| (s, at + w.len())));
            }
        }
        if open.len() == before {
            leaves += 1;
        }
        nodes += 1;
        if nodes > cap {
            return None;
        }
    }
    Some(leaves)
}

/// The widths, and those that are just and just not wide enough to hold the open configurations.
pub fn with_open(widths: &[(usize, bool)], open: Option<usize>) -> Vec<(usize, bool)> {
    let mut v = widths.to_vec();
    if let Some(n) = open {
        let last = v.pop().unwrap();
        v.extend([(n, true), (n + 1, true)]);
        if n > 1 {
            v.push((n - 1, false));
        }
        v.push(last);
    }
    v
}

/// Widths around the number of configurations that are open at most.
pub fn widths_around(n: usize) -> Vec<(usize, bool)> {
    let mut v: Vec<usize> = vec![0, 1, 2, n / 2, n - 1, n, n + 1, n + 2, 2 * n, 4 * n + 20, 16 * n, 1000, 1 << 16, 1 << 32, usize::MAX];
    v.sort();
    v.dedup();
    v.into_iter().map(|b| (b, b >= n)).collect()
}

pub const LARGE: &str = "n parses that are open at the same time, for all n up to 40 (80) and 100, 128, 200 × beams of 0, 1, 2 and around n, and much larger \
                         ones; non-trivial: a beam of 1 finds some but not all";

pub fn large_sizes(t: mc_common::Tier) -> Vec<usize> {
    (1..=t.pick(40usize, 80)).chain([100, 128, 200]).collect()
}
