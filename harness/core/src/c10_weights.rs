//! Reversed and factorised weights: all pairs of values of a finite domain.

use log_domain::LogDomain;
use mc_common::enumerate::digits;
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use num_traits::{One, Zero};
use rustomata::util::factorizable::Factorizable;
use rustomata::util::reverse::Reverse;
use std::collections::BinaryHeap;
use std::fmt::{Debug, Display};
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Rem, RemAssign, Sub, SubAssign};
use std::str::FromStr;

fn eq<T: PartialEq + Debug>(what: &str, got: T, e: T) -> Verdict {
    if got == e {
        Ok(())
    } else {
        Err(format!("{}: {:?}, not {:?}", what, got, e))
    }
}

fn ops<W>(a: W, b: W, obs: &mut Obs) -> Verdict
where
    W: Copy + Debug + Display + PartialEq + PartialOrd + Zero + One,
    W: Add<Output = W> + Mul<Output = W> + AddAssign + MulAssign,
{
    let (x, y) = (Reverse::from(a), Reverse::from(b));
    eq("inner", *x.inner(), a)?;
    eq("unwrap", x.unwrap(), a)?;
    eq("==", x == y, a == b)?;
    eq("partial_cmp", x.partial_cmp(&y), b.partial_cmp(&a))?;
    eq("<", x < y, b < a)?;
    eq("<=", x <= y, b <= a)?;
    eq(">", x > y, b > a)?;
    eq(">=", x >= y, b >= a)?;
    eq("+", (x + y).unwrap(), a + b)?;
    eq("*", (x * y).unwrap(), a * b)?;
    let mut z = x;
    z += y;
    eq("+=", z.unwrap(), a + b)?;
    let mut z = x;
    z *= y;
    eq("*=", z.unwrap(), a * b)?;
    eq("Display", x.to_string(), a.to_string())?;
    eq("Display with format", format!("{:>9.3}|{:<+5}", x, y), format!("{:>9.3}|{:<+5}", a, b))?;
    eq("zero", Reverse::<W>::zero().unwrap(), W::zero())?;
    eq("is_zero", x.is_zero(), a.is_zero())?;
    eq("one", Reverse::<W>::one().unwrap(), W::one())?;
    obs.steps(16);
    Ok(())
}

fn partial_ops<W>(a: W, b: W, obs: &mut Obs) -> Verdict
where
    W: Copy + Debug + PartialEq + Sub<Output = W> + SubAssign + Div<Output = W> + DivAssign,
{
    let (x, y) = (Reverse::from(a), Reverse::from(b));
    let both = |what: &str, r: Result<W, String>, e: Result<W, String>| match (r, e) {
        (Ok(r), Ok(e)) => eq(what, r, e),
        (Err(_), Err(_)) => Ok(()),
        (r, e) => Err(format!("{}: {:?}, not {:?}", what, r, e)),
    };
    both("-", catch(|| (x - y).unwrap()), catch(|| a - b))?;
    both("/", catch(|| (x / y).unwrap()), catch(|| a / b))?;
    both("-=", catch(|| { let mut z = x; z -= y; z.unwrap() }), catch(|| a - b))?;
    both("/=", catch(|| { let mut z = x; z /= y; z.unwrap() }), catch(|| a / b))?;
    obs.steps(4);
    Ok(())
}

fn rem_ops<W>(a: W, b: W, obs: &mut Obs) -> Verdict
where
    W: Copy + Debug + PartialEq + Rem<Output = W> + RemAssign + Zero,
{
    if !b.is_zero() {
        let (x, y) = (Reverse::from(a), Reverse::from(b));
        eq("%", (x % y).unwrap(), a % b)?;
        let mut z = x;
        z %= y;
        eq("%=", z.unwrap(), a % b)?;
        obs.steps(2);
    }
    Ok(())
}

fn ordered<W: Copy + Debug + Ord>(a: W, b: W, c: W, obs: &mut Obs) -> Verdict {
    let r = |w| Reverse::from(w);
    eq("cmp", r(a).cmp(&r(b)), b.cmp(&a))?;
    eq("max", r(a).max(r(b)).unwrap(), a.min(b))?;
    eq("min", r(a).min(r(b)).unwrap(), a.max(b))?;
    let mut e = vec![a, b, c];
    e.sort();
    let mut heap: BinaryHeap<Reverse<W>> = e.iter().rev().map(|&w| r(w)).collect();
    let mut got = Vec::new();
    while let Some(w) = heap.pop() {
        got.push(w.unwrap());
    }
    eq("a heap's order", got, e)?;
    obs.steps(4);
    Ok(())
}

fn stored<W>(a: W, text: &str, obs: &mut Obs) -> Verdict
where
    W: Copy + Debug + PartialEq + serde::Serialize + serde::de::DeserializeOwned + FromStr,
    W::Err: Debug + PartialEq,
{
    let b = bincode::serialize(&Reverse::from(a), bincode::Infinite).map_err(|e| e.to_string())?;
    let c: Reverse<W> = bincode::deserialize(&b).map_err(|e| e.to_string())?;
    let d: W = bincode::deserialize(&bincode::serialize(&a, bincode::Infinite).unwrap()).unwrap();
    eq("stored", c.unwrap(), d)?;
    eq("FromStr", text.parse::<Reverse<W>>().map(|w| w.unwrap()), text.parse::<W>())?;
    obs.steps(2);
    Ok(())
}

const TEXTS: [&str; 9] = ["0", "1", "-1", "0.5", "7", "", "x", " 1", "1e3"];

fn ints(tier: Tier) -> Suite {
    let n = tier.pick(13u64, 41);
    Suite::new(
        "integers",
        "all triples of integers from -6 to 6 (-20 to 20); non-trivial: three different values",
        n * n * n,
        move |i, o| {
            let d = digits(i, &[n, n, n]);
            let v: Vec<i64> = d.iter().map(|&x| x as i64 - n as i64 / 2).collect();
            ops(v[0], v[1], o)?;
            partial_ops(v[0], v[1], o)?;
            rem_ops(v[0], v[1], o)?;
            ordered(v[0], v[1], v[2], o)?;
            stored(v[0], TEXTS[i as usize % TEXTS.len()], o)?;
            if v[0] != v[1] && v[1] != v[2] && v[0] != v[2] {
                o.nontrivial();
            }
            o.note(|| format!("{:?}", v));
            o.state(&v);
            o.outcome(&v);
            o.trace();
            Ok(())
        },
        move |i| format!("{:?}", digits(i, &[n, n, n]).iter().map(|&x| x as i64 - n as i64 / 2).collect::<Vec<_>>()),
    )
}

const FLOATS: [f64; 13] =
    [0.0, 1.0, 0.5, 0.25, 0.1, 0.9, 0.3, 2.0, 1e-300, 5e-324, 1e300, 0.9999999999999999, f64::INFINITY];

fn floats() -> Suite {
    let n = FLOATS.len() as u64;
    Suite::new(
        "probabilities",
        "all pairs of 13 floats, also in the log domain; non-trivial: two different values",
        n * n,
        move |i, o| {
            let d = digits(i, &[n, n]);
            let (a, b) = (FLOATS[d[0]], FLOATS[d[1]]);
            // inf * 0 and the like are not a number
            let fine = a.is_finite() && b.is_finite();
            if fine {
                ops(a, b, o)?;
                rem_ops(a, b, o)?;
                partial_ops(a, b, o).or_else(|e| if b == 0.0 { Ok(()) } else { Err(e) })?;
            }
            stored(a, TEXTS[i as usize % TEXTS.len()], o)?;
            let (la, lb) = (LogDomain::new(a).unwrap(), LogDomain::new(b).unwrap());
            if fine {
                ops(la, lb, o)?;
                partial_ops(la, lb, o)?;
            }
            ordered(la, lb, LogDomain::one(), o)?;
            stored(la, TEXTS[i as usize % TEXTS.len()], o)?;
            if a != b {
                o.nontrivial();
                o.note(|| format!("{} and {}", a, b));
            }
            o.state(&(d[0], d[1]));
            o.outcome(&(d[0], d[1]));
            o.trace();
            Ok(())
        },
        move |i| {
            let d = digits(i, &[n, n]);
            format!("{:?}", (FLOATS[d[0]], FLOATS[d[1]]))
        },
    )
}

fn product(fs: &[LogDomain<f64>]) -> LogDomain<f64> {
    fs.iter().fold(LogDomain::one(), |p, &f| p * f)
}

fn close(a: LogDomain<f64>, b: LogDomain<f64>) -> bool {
    a.ln() == b.ln() || (a.ln() - b.ln()).abs() <= 1e-9 * (1.0 + b.ln().abs())
}

fn factors(tier: Tier) -> Suite {
    let ns = tier.pick(40u64, 1000);
    let ws = 102u64;
    let weight = |i: usize| -> f64 {
        match i {
            0..=100 => i as f64 / 100.0,
            _ => 1e-200,
        }
    };
    Suite::new(
        "factors",
        "all numbers of factors up to 40 (1000), all weights 0, 0.01, …, 1 and 1e-200; non-trivial: at least two factors",
        ns * ws,
        move |i, o| {
            let d = digits(i, &[ws, ns]);
            let (w, n) = (LogDomain::new(weight(d[0])).unwrap(), d[1] + 1);
            let fs = w.factorize(n);
            eq("number of factors", fs.len(), n)?;
            if !close(product(&fs), w) {
                return Err(format!("the product of {:?} is {}, not {}", fs, product(&fs), w));
            }
            let rs = Reverse::from(w).factorize(n);
            eq("number of reversed factors", rs.len(), n)?;
            let p = rs.iter().fold(Reverse::one(), |p: Reverse<LogDomain<f64>>, &f| p * f);
            if !close(p.unwrap(), w) {
                return Err(format!("the product of {:?} is {}, not {}", rs, p, w));
            }
            eq("number of trivial factors", ().factorize(n).len(), n)?;
            o.steps(3);
            o.state(&(d[0], n));
            o.outcome(&(d[0], n));
            o.trace();
            if n > 1 {
                o.nontrivial();
                o.note(|| format!("{} into {}", w, n));
            }
            Ok(())
        },
        move |i| {
            let d = digits(i, &[ws, ns]);
            format!("{} into {} factors", weight(d[0]), d[1] + 1)
        },
    )
}

pub fn check() -> Check {
    Check {
        id: "C10",
        assumptions: vec!["products of factors are compared up to a relative error of 1e-9 of the logarithm"],
        build: |t| vec![ints(t), floats(), factors(t)],
    }
}
