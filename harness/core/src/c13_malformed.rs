//! C13: every sequence of fragments and every small edit of a well-formed file is read as the
//! reference reader reads it, or refused where that refuses it.

use crate::c09_equivalence::{meaning, Line};
use crate::text::{self, Format};
use mc_common::enumerate::Sequences;
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::approximation::equivalence_classes::EquivalenceRelation;
use rustomata::grammars::cfg::{CFGRule, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{PMCFGRule, PMCFG};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Cfg,
    Pmcfg,
    Classes,
}

fn read<T: std::str::FromStr>(what: &str, t: &str) -> Result<Option<T>, String> {
    catch(|| t.parse::<T>().ok()).map_err(|p| format!("reading a {} panics: {}", what, p))
}

fn differ<T: std::fmt::Debug>(what: &str, got: &Option<T>, e: bool) -> Verdict {
    match (got, e) {
        (Some(g), false) => Err(format!("{}: read as {:?}, should be refused", what, g)),
        (None, true) => Err(format!("{}: refused", what)),
        _ => Ok(()),
    }
}

fn run(t: &str, kind: Kind, obs: &mut Obs) -> Verdict {
    obs.state(t);
    let mut read_something = false;
    let mut outcome = String::new();
    match kind {
        Kind::Cfg => {
            let e = text::read(t, Format::Cfg);
            let g = read::<CFG<String, String, f64>>("CFG", t)?.map(|g| text::of_cfg(&g));
            differ("CFG", &g, e.is_ok())?;
            if let (Some(g), Ok(e)) = (&g, &e) {
                text::same("CFG", g, e)?;
                read_something = !e.rules.is_empty() || !e.initial.is_empty();
                outcome = format!("{:?}", e);
            }
            // other types of symbols and weights: no crash
            read::<CFG<u8, char, usize>>("CFG of numbers", t)?;
            if let [line] = t.lines().collect::<Vec<_>>()[..] {
                let r = read::<CFGRule<String, String, f64>>("CFG rule", line.trim())?.map(|r| text::of_cfg_rule(&r));
                if let (Some(r), Ok(e)) = (&r, &e) {
                    if !e.rules.is_empty() && e.rules[0] != *r {
                        return Err(format!("the rule is read as {}, not {}", r.show(), e.rules[0].show()));
                    }
                }
            }
        }
        Kind::Pmcfg => {
            let e = text::read(t, Format::Pmcfg);
            let g = read::<PMCFG<String, String, f64>>("PMCFG", t)?.map(|g| text::of_pmcfg(&g));
            differ("PMCFG", &g, e.is_ok())?;
            if let (Some(g), Ok(e)) = (&g, &e) {
                text::same("PMCFG", g, e)?;
                read_something = !e.rules.is_empty() || !e.initial.is_empty();
                outcome = format!("{:?}", e);
            }
            let l = read::<Lcfrs<String, String, f64>>("LCFRS", t)?.map(text::of_lcfrs);
            let e = e.ok().filter(|e| e.initial.len() == 1);
            differ("LCFRS", &l, e.is_some())?;
            if let (Some(l), Some(e)) = (&l, &e) {
                text::same("LCFRS", l, e)?;
            }
            read::<PMCFG<u8, char, usize>>("PMCFG of numbers", t)?;
            if let [line] = t.lines().collect::<Vec<_>>()[..] {
                let r = read::<PMCFGRule<String, String, f64>>("PMCFG rule", line.trim())?.map(|r| text::of_pmcfg_rule(&r));
                if let (Some(r), Some(e)) = (&r, &e) {
                    if !e.rules.is_empty() && e.rules[0] != *r {
                        return Err(format!("the rule is read as {}, not {}", r.show(), e.rules[0].show()));
                    }
                }
            }
        }
        Kind::Classes => {
            let lines: Vec<Line<String, String>> = t
                .lines()
                .map(|l| match l.trim() {
                    "" => Line::Skip,
                    l => match text::read_class(l) {
                        Ok((label, Some(set))) => Line::Class(label, set),
                        Ok((label, None)) => Line::Default(label),
                        Err(()) => Line::Bad,
                    },
                })
                .collect();
            let r = read::<EquivalenceRelation<String, String>>("equivalence relation", t)?;
            read::<EquivalenceRelation<u8, char>>("equivalence relation of numbers", t)?;
            if let Ok(e) = meaning(&lines) {
                differ("equivalence relation", &r, e.is_some())?;
                if let (Some(r), Some((map, default))) = (r, e) {
                    for k in map.keys().chain([&String::from("other")]) {
                        let c = map.get(k).unwrap_or(&default);
                        if r.project(k) != *c {
                            return Err(format!("{:?} is in class {:?}, not {:?}", k, r.project(k), c));
                        }
                    }
                    outcome = format!("{:?} {:?}", map, default);
                    read_something = true;
                }
            }
        }
    }
    obs.step();
    obs.trace();
    obs.outcome(&outcome);
    if read_something {
        obs.nontrivial();
        obs.note(|| t.to_string());
    }
    Ok(())
}

const CFG_FRAGMENTS: &[&str] =
    &["S", " ", "→", "->", "[", "]", "T a", "Nt S", ",", "#", "0.5", "%", "\"", "\\", "initial:", "\n", "T", "\t", ";", "ü", "-", "(", "’"];
const PMCFG_FRAGMENTS: &[&str] =
    &["S", " ", "→", "->", "[", "]", "[[", "]]", "()", "(", ")", "T a", "Var 0 0", "Var", "99999999999999999999", ",", "#", "0.5", "%", "\"", "\\", "initial:", "\n", "\t", "’"];
const CLASS_FRAGMENTS: &[&str] = &["S", "a", " ", "[", "]", ",", "*", "\n", "\"", "\\", "%", "-", "’", "[a]", "0", "\t"];

fn fragments(kind: Kind) -> &'static [&'static str] {
    match kind {
        Kind::Cfg => CFG_FRAGMENTS,
        Kind::Pmcfg => PMCFG_FRAGMENTS,
        Kind::Classes => CLASS_FRAGMENTS,
    }
}

fn sequences(name: &'static str, kind: Kind, max: u32) -> Suite {
    let f = fragments(kind);
    let seq = Sequences::new(f.len(), max);
    let text = move |i: u64| -> String { seq.get(i).into_iter().map(|l| f[l]).collect() };
    Suite::new(
        name,
        "all sequences of fragments of the format up to a length; non-trivial: something is read",
        seq.len(),
        move |i, o| run(&text(i), kind, o),
        move |i| format!("{:?}", text(i)),
    )
    .limit(20)
}

/// The parts of a well-formed line from which a sequence may leave out, repeat or swap some.
fn shapes(name: &'static str, kind: Kind, tier: Tier) -> Suite {
    let parts: Vec<&str> = match kind {
        Kind::Cfg => vec!["S", " → ", "[", "T a", ", ", "Nt S", "]", " # 0.5", " % c", "\n", "initial: ", "[S]"],
        Kind::Pmcfg => vec!["S", " → ", "[", "[", "T a", ", ", "Var 0 0", "]", "]", " (", "S", ")", " # 0.5", " % c", "\n", "initial: ", "[S]"],
        Kind::Classes => vec!["S", " [", "a", ", ", "b", "]", "\n", "N ", "[c]", "\n", "R", " *", " % c", "\n"],
    };
    // all ways to take each part zero times, once or (in the thorough tier) twice
    let k = if tier == Tier::Thorough && kind != Kind::Pmcfg { 3u64 } else { 2 };
    let n = parts.len() as u32;
    let text = move |i: u64| -> String {
        let mut i = i;
        let mut t = String::new();
        for p in &parts {
            t += &p.repeat((i % k) as usize);
            i /= k;
        }
        t
    };
    let t2 = text.clone();
    Suite::new(
        name,
        "all selections of the parts of a well-formed file (each part left out, once, or twice in the thorough tier); non-trivial: something is read",
        k.pow(n),
        move |i, o| run(&text(i), kind, o),
        move |i| format!("{:?}", t2(i)),
    )
    .limit(20)
}

fn edit_once(base: &[char], f: &[&str]) -> Vec<String> {
    let mut out = Vec::new();
    let s = |r: &[char]| r.iter().collect::<String>();
    for p in 0..=base.len() {
        out.push(s(&base[..p]));
        out.push(s(&base[p..]));
        for x in f {
            out.push(s(&base[..p]) + x + &s(&base[p..]));
            if p < base.len() {
                out.push(s(&base[..p]) + x + &s(&base[p + 1..]));
            }
        }
        for q in p + 1..=base.len().min(p + 6) {
            out.push(s(&base[..p]) + &s(&base[q..]));
            out.push(s(&base[..q]) + &s(&base[p..]));
        }
    }
    out
}

fn edits(name: &'static str, kind: Kind, tier: Tier) -> Suite {
    let bases: Vec<&str> = match kind {
        Kind::Cfg => vec![
            "initial: [S, \"A b\"] % c\n\nS → [T a, Nt S] # 0.5 % c\n  S -> [] #0.5\n",
            "% c\n\"S \\\" x\" => [T \"→\",T ü]\n initial:[S]\n",
        ],
        Kind::Pmcfg => vec![
            "initial: [S] % c\n\nS → [[T a, Var 0 0], [Var 0 1]] (S, A) # 0.5 % c\n  S -> [] () #0.5\n",
            "% c\n\"S \\\" x\" => [[ ],[T \"→\"]] ( A)\n initial:[S]\n",
        ],
        Kind::Classes => vec!["S [a, \"b c\"]\n\nN [ d]  % c\n R *\n", "S [a]\nS [b]\r\n\"R\" *"],
    };
    let f = fragments(kind);
    let mut all: Vec<String> = Vec::new();
    for b in bases {
        let once = edit_once(&b.chars().collect::<Vec<_>>(), f);
        if tier == Tier::Thorough {
            // a second edit, by fewer fragments
            for t in &once {
                all.extend(edit_once(&t.chars().collect::<Vec<_>>(), &f[..2]));
            }
        }
        all.extend(once);
    }
    all.sort();
    all.dedup();
    let all = Arc::new(all);
    let a2 = all.clone();
    Suite::new(
        name,
        "all edits (two edits in the thorough tier) of well-formed files: deleting, inserting, replacing, repeating, cutting; non-trivial: something is read",
        all.len() as u64,
        move |i, o| run(&all[i as usize], kind, o),
        move |i| format!("{:?}", a2[i as usize]),
    )
    .limit(20)
}

pub fn check() -> Check {
    Check {
        id: "C13",
        assumptions: vec!["texts are valid UTF-8 (anything else is no `str`)"],
        build: |t| {
            vec![
                sequences("CFG-fragments", Kind::Cfg, t.pick(4, 5)),
                sequences("PMCFG-fragments", Kind::Pmcfg, t.pick(4, 5)),
                sequences("class-fragments", Kind::Classes, t.pick(5, 6)),
                shapes("CFG-parts", Kind::Cfg, t),
                shapes("PMCFG-parts", Kind::Pmcfg, t),
                shapes("class-parts", Kind::Classes, t),
                edits("CFG-edits", Kind::Cfg, t),
                edits("PMCFG-edits", Kind::Pmcfg, t),
                edits("class-edits", Kind::Classes, t),
            ]
        },
    }
}
