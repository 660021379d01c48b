//! C11, C12: grammars printed and read back, and hand-written layouts of grammars.

use crate::text::{self, Format, Grammar, Name, Rule, Sym};
use mc_common::enumerate::{digits, Sequences};
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::grammars::cfg::{CFGComposition, CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};
use std::fmt::{Debug, Display};
use std::str::FromStr;
use std::sync::Arc;

fn p<N: FromStr>(s: &str) -> N
where
    N::Err: Debug,
{
    s.parse().unwrap()
}

pub fn to_cfg_rule<N, T>(r: &Rule) -> CFGRule<N, T, f64>
where
    N: FromStr,
    T: FromStr,
    N::Err: Debug,
    T::Err: Debug,
{
    CFGRule {
        head: p(&r.head),
        composition: CFGComposition {
            composition: r.comp[0]
                .iter()
                .map(|s| match s {
                    Sym::T(t) => LetterT::Value(p(t)),
                    Sym::N(n) => LetterT::Label(p(n)),
                    Sym::V(..) => unreachable!(),
                })
                .collect(),
        },
        weight: f64::from_bits(r.weight),
    }
}

pub fn to_pmcfg_rule<N, T>(r: &Rule) -> PMCFGRule<N, T, f64>
where
    N: FromStr,
    T: FromStr,
    N::Err: Debug,
    T::Err: Debug,
{
    PMCFGRule {
        head: p(&r.head),
        tail: r.tail.iter().map(|n| p(n)).collect(),
        composition: Composition {
            composition: r
                .comp
                .iter()
                .map(|c| {
                    c.iter()
                        .map(|s| match s {
                            Sym::T(t) => VarT::T(p(t)),
                            Sym::V(i, j) => VarT::Var(*i, *j),
                            Sym::N(_) => unreachable!(),
                        })
                        .collect()
                })
                .collect(),
        },
        weight: f64::from_bits(r.weight),
    }
}

/// What the property asks of a grammar: print it, read it, compare; also rule by rule.
fn round_trip<N, T>(g: &Grammar, format: Format, obs: &mut Obs) -> Verdict
where
    N: Name + FromStr + Display + Ord,
    T: Name + FromStr + Display + Ord,
    N::Err: Debug,
    T::Err: Debug,
{
    obs.state(g);
    for r in &g.rules {
        obs.step();
        let (text, back) = match format {
            Format::Cfg => {
                let t = to_cfg_rule::<N, T>(r).to_string();
                (t.clone(), catch(|| t.parse::<CFGRule<N, T, f64>>()).map_err(|p| format!("reading {:?} panics: {}", t, p))?.map(|r| text::of_cfg_rule(&r)))
            }
            Format::Pmcfg => {
                let t = to_pmcfg_rule::<N, T>(r).to_string();
                (t.clone(), catch(|| t.parse::<PMCFGRule<N, T, f64>>()).map_err(|p| format!("reading {:?} panics: {}", t, p))?.map(|r| text::of_pmcfg_rule(&r)))
            }
        };
        match back {
            Err(e) => return Err(format!("the rule is printed as {:?}, which is not read: {}", text, e)),
            Ok(b) if b != *r => return Err(format!("the rule is printed as {:?} and read as {}", text, b.show())),
            _ => (),
        }
    }
    match format {
        Format::Cfg => {
            // there is no way to print a whole context-free grammar; its initial nonterminals
            // are written like those of a PMCFG
            let pm: PMCFG<N, T, f64> = PMCFG { initial: g.initial.iter().map(|n| p(n)).collect(), rules: Vec::new() };
            let mut t = pm.to_string();
            for r in &g.rules {
                t += &format!("{}\n", to_cfg_rule::<N, T>(r));
            }
            let back = catch(|| t.parse::<CFG<N, T, f64>>())
                .map_err(|p| format!("reading {:?} panics: {}", t, p))?
                .map_err(|e| format!("printed as {:?}, not read: {}", t, e))?;
            text::same(&format!("printed as {:?}", t), &text::of_cfg(&back), g)?;
        }
        Format::Pmcfg => {
            let gr: PMCFG<N, T, f64> = PMCFG {
                initial: g.initial.iter().map(|n| p(n)).collect(),
                rules: g.rules.iter().map(to_pmcfg_rule).collect(),
            };
            let t = gr.to_string();
            let back = catch(|| t.parse::<PMCFG<N, T, f64>>())
                .map_err(|p| format!("reading {:?} panics: {}", t, p))?
                .map_err(|e| format!("printed as {:?}, not read: {}", t, e))?;
            text::same(&format!("printed as {:?}", t), &text::of_pmcfg(&back), g)?;
            if g.initial.len() == 1 {
                // as an LCFRS: read first, as there is no other way to make any one
                let l: Lcfrs<N, T, f64> =
                    catch(|| t.parse()).map_err(|p| format!("reading {:?} panics: {}", t, p))?.map_err(|e: String| format!("not read as LCFRS: {}", e))?;
                let t2 = l.to_string();
                text::same("read as LCFRS", &text::of_lcfrs(l), g)?;
                let l2: Lcfrs<N, T, f64> = catch(|| t2.parse())
                    .map_err(|p| format!("reading {:?} panics: {}", t2, p))?
                    .map_err(|e: String| format!("the LCFRS is printed as {:?}, not read: {}", t2, e))?;
                text::same(&format!("the LCFRS printed as {:?}", t2), &text::of_lcfrs(l2), g)?;
                obs.step();
            }
        }
    }
    obs.step();
    obs.trace();
    obs.outcome(&(g.rules.len(), g.initial.len(), g.rules.iter().map(|r| (r.comp.len(), r.tail.len(), r.weight)).collect::<Vec<_>>()));
    if !g.rules.is_empty() && g.rules.iter().all(|r| r.comp.iter().any(|c| !c.is_empty())) {
        obs.nontrivial();
        obs.note(|| format!("{:?}, {}", g.initial, g.rules.iter().map(|r| r.show()).collect::<Vec<_>>().join("; ")));
    }
    Ok(())
}

const NAMES: [&str; 22] = [
    "S", "", " ", "a b", "→", "->", "[", "]", "a,b", "%", "#", "# 0.5", "T", "Nt", "Var 0 0", "initial:", "\\\"", "\\\\", "ü", "‘", "()", "S ",
];

const WEIGHTS: [f64; 10] = [1.0, 0.0, 0.5, 0.1, 0.30000000000000004, 1e-300, 5e-324, 1.7976931348623157e308, 2.0, f64::INFINITY];

/// All rules over a menu of names with right-hand sides of at most `max` letters.
fn rules(names: &[&str], weights: &[f64], max: u32, format: Format) -> Vec<Rule> {
    let mut out = Vec::new();
    let n = names.len();
    match format {
        Format::Cfg => {
            let seq = Sequences::new(2 * n, max);
            for h in names {
                for i in 0..seq.len() {
                    let comp: Vec<Sym> = seq
                        .get(i)
                        .into_iter()
                        .map(|l| if l < n { Sym::T(names[l].to_string()) } else { Sym::N(names[l - n].to_string()) })
                        .collect();
                    for w in weights {
                        out.push(Rule { head: h.to_string(), comp: vec![comp.clone()], tail: Vec::new(), weight: w.to_bits() });
                    }
                }
            }
        }
        Format::Pmcfg => {
            // components are separated by a letter of their own
            let vars = [(0, 0), (0, 1), (1, 0), (12, 345)];
            let letters = n + vars.len() + 1;
            let seq = Sequences::new(letters, max);
            let tails: Vec<Vec<String>> =
                [vec![], vec![names[0]], vec![names[n - 1], names[0]], vec![names[n / 2], names[n / 2]]].iter().map(|t| t.iter().map(|s: &&str| s.to_string()).collect()).collect();
            for h in names {
                for i in 0..seq.len() + 1 {
                    let mut comp: Vec<Vec<Sym>> = Vec::new();
                    if i > 0 {
                        comp.push(Vec::new());
                        for l in seq.get(i - 1) {
                            if l == letters - 1 {
                                comp.push(Vec::new());
                            } else {
                                comp.last_mut().unwrap().push(if l < n {
                                    Sym::T(names[l].to_string())
                                } else {
                                    Sym::V(vars[l - n].0, vars[l - n].1)
                                });
                            }
                        }
                    }
                    for t in &tails {
                        for w in weights {
                            out.push(Rule { head: h.to_string(), comp: comp.clone(), tail: t.clone(), weight: w.to_bits() });
                        }
                    }
                }
            }
        }
    }
    out
}

fn one_rule<N, T>(name: &'static str, names: &[&str], weights: &[f64], max: u32, format: Format) -> Suite
where
    N: Name + FromStr + Display + Ord + 'static,
    T: Name + FromStr + Display + Ord + 'static,
    N::Err: Debug,
    T::Err: Debug,
{
    let rs = Arc::new(rules(names, weights, max, format));
    let ini: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    let g = {
        let rs = rs.clone();
        move |i: u64| {
            let i = i as usize;
            Grammar { initial: vec![ini[i % ini.len()].clone(), rs[i].head.clone()][i % 2..].to_vec(), rules: vec![rs[i].clone()] }
        }
    };
    let g2 = g.clone();
    Suite::new(
        name,
        "all grammars of one rule over a menu of names and weights; non-trivial: the right-hand side is not empty",
        rs.len() as u64,
        move |i, o| round_trip::<N, T>(&g(i), format, o),
        move |i| format!("{:?}", g2(i)),
    )
}

fn more_rules(names: &'static [&'static str], weights: &[f64], max: u32, n: u32, format: Format) -> Suite {
    let rs = Arc::new(rules(names, weights, max, format));
    let inis = Sequences::new(names.len(), 2);
    let seq = Sequences::new(rs.len(), n);
    let g = move |i: u64| {
        let d = digits(i, &[seq.len(), inis.len()]);
        Grammar {
            initial: inis.get(d[1] as u64).into_iter().map(|l| names[l].to_string()).collect(),
            rules: seq.get(d[0] as u64).into_iter().map(|r| rs[r].clone()).collect(),
        }
    };
    let g2 = g.clone();
    Suite::new(
        "grammars",
        "all grammars of at most n rules and at most 2 initial nonterminals over a small menu; non-trivial: no right-hand side is empty",
        seq.len() * inis.len(),
        move |i, o| round_trip::<String, String>(&g(i), format, o),
        move |i| format!("{:?}", g2(i)),
    )
}

// ---------------------------------------------------------------------------------------------
// layouts

/// A rule text from its pieces; each `~` is a gap.
fn layouts(format: Format, tier: Tier) -> Suite {
    let pieces: Vec<&str> = match format {
        Format::Cfg => vec!["", "A", "@", "[", "T", "a", ",", "Nt", "\"B c\"", "]", "", ""],
        Format::Pmcfg => vec!["", "A", "@", "[[", "T", "a", ",", "Var 1 0", "]", ",", "[", "Var", "0", " 0", "]]", "(", "B", ",", "\"C )\"", ")", "", ""],
    };
    let gaps = pieces.len() - 1;
    let arrows = ["→", "->", "=>"];
    let weights: [(&str, f64); 5] = [("", 1.0), ("#0.5", 0.5), ("# 0.25", 0.25), ("#   1e-3", 1e-3), ("#1", 1.0)];
    let comments = ["", "%", " % T a → [", "  "];
    let gap_texts: &'static [&'static str] = if format == Format::Cfg && tier == Tier::Thorough { &["", " ", "   "] } else { &["", "  "] };
    // in the long PMCFG rule only six gaps vary at the same time (all gaps of a window), the
    // others are all empty or all blank
    let free = if format == Format::Cfg { gaps } else { tier.pick(9, 13) };
    let windows = gaps - free + 1;
    let g = gap_texts.len() as u64;
    let n = g.pow(free as u32) * windows as u64 * 2;
    let radices = [n, 3, 5, 4];
    let build = move |i: u64| -> (String, Rule) {
        let d = digits(i, &radices);
        let w = digits(d[0] as u64, &[windows as u64, 2, g.pow(free as u32)]);
        let inner = digits(w[2] as u64, &vec![g; free]);
        let (weight_text, weight) = weights[d[2]];
        let mut t = String::new();
        for (k, piece) in pieces.iter().enumerate() {
            // `=` and `>` may be part of a token
            if *piece == "@" && d[1] == 2 && t.ends_with('A') {
                t += " ";
            }
            t += match *piece {
                "@" => arrows[d[1]],
                p => p,
            };
            if k < gaps {
                let text = if k >= w[0] && k < w[0] + free { gap_texts[inner[k - w[0]]] } else { ["", " "][w[1]] };
                t += text;
            }
        }
        t += weight_text;
        // without a blank, a comment would belong to the weight
        if !weight_text.is_empty() && comments[d[3]].starts_with('%') {
            t += " ";
        }
        t += comments[d[3]];
        let rule = match format {
            Format::Cfg => Rule {
                head: "A".into(),
                comp: vec![vec![Sym::T("a".into()), Sym::N("B c".into())]],
                tail: Vec::new(),
                weight: weight.to_bits(),
            },
            Format::Pmcfg => Rule {
                head: "A".into(),
                comp: vec![vec![Sym::T("a".into()), Sym::V(1, 0)], vec![Sym::V(0, 0)]],
                tail: vec!["B".into(), "C )".into()],
                weight: weight.to_bits(),
            },
        };
        (t, rule)
    };
    let b2 = build.clone();
    Suite::new(
        "layouts",
        "all distributions of blanks between the symbols of a rule, all arrows, weights and comments; non-trivial: with a weight",
        radices.iter().product(),
        move |i, o| {
            let (t, e) = build(i);
            // at first position of a line blanks only count for the whole grammar
            let whole = format!("initial: [A]\n{}\n", t);
            let (rule, grammar) = match format {
                Format::Cfg => (
                    catch(|| t.trim().parse::<CFGRule<String, String, f64>>()).map_err(|p| format!("panics: {}", p))?.map(|r| text::of_cfg_rule(&r)),
                    catch(|| whole.parse::<CFG<String, String, f64>>()).map_err(|p| format!("panics: {}", p))?.map(|g| text::of_cfg(&g)),
                ),
                Format::Pmcfg => (
                    catch(|| t.trim().parse::<PMCFGRule<String, String, f64>>()).map_err(|p| format!("panics: {}", p))?.map(|r| text::of_pmcfg_rule(&r)),
                    catch(|| whole.parse::<PMCFG<String, String, f64>>()).map_err(|p| format!("panics: {}", p))?.map(|g| text::of_pmcfg(&g)),
                ),
            };
            o.state(&t);
            o.steps(2);
            match rule {
                Ok(r) if r == e => (),
                Ok(r) => return Err(format!("read as {}, not {}", r.show(), e.show())),
                Err(_) => return Err("not read as a rule".into()),
            }
            let grammar = grammar.map_err(|_| "not read as part of a grammar".to_string())?;
            text::same("as part of a grammar", &grammar, &Grammar { initial: vec!["A".into()], rules: vec![e.clone()] })?;
            o.trace();
            o.outcome(&e.weight);
            if e.weight != 1f64.to_bits() {
                o.nontrivial();
                o.note(|| t.clone());
            }
            Ok(())
        },
        move |i| format!("{:?}", b2(i).0),
    )
}

/// Files from a menu of lines.
fn files(format: Format, tier: Tier) -> Suite {
    let rule = |h: &str, w: f64, t: &str| match format {
        Format::Cfg => Rule { head: h.into(), comp: vec![vec![Sym::T(t.into())]], tail: vec![], weight: w.to_bits() },
        Format::Pmcfg => Rule { head: h.into(), comp: vec![vec![Sym::T(t.into())]], tail: vec![], weight: w.to_bits() },
    };
    let (o, c) = match format {
        Format::Cfg => ("[", "]"),
        Format::Pmcfg => ("[[", "]] ()"),
    };
    let line = |head: &str, t: &str, rest: &str| format!("{} → {}T {}{}{}", head, o, t, c, rest);
    let menu: Vec<(String, Vec<String>, Vec<Rule>)> = vec![
        (line("S", "a", ""), vec![], vec![rule("S", 1.0, "a")]),
        (line("S", "b", " # 0.5"), vec![], vec![rule("S", 0.5, "b")]),
        (line("  A", "\"% c\"", "  # 0.25 % # 0.75  "), vec![], vec![rule("A", 0.25, "% c")]),
        (line("\tinitial", "a", " % initial: [S]"), vec![], vec![rule("initial", 1.0, "a")]),
        ("initial: [S]".into(), vec!["S".into()], vec![]),
        ("  initial: [A, \"S, ]\"]".into(), vec!["A".into(), "S, ]".into()], vec![]),
        ("initial:[ A ] % [S]".into(), vec!["A".into()], vec![]),
        ("initial: []".into(), vec![], vec![]),
        ("".into(), vec![], vec![]),
        (" \t ".into(), vec![], vec![]),
        ("% S → [".into(), vec![], vec![]),
        ("   % initial: [S]".into(), vec![], vec![]),
    ];
    let menu = Arc::new(menu);
    let seq = Sequences::new(menu.len(), tier.pick(4, 5));
    let text = {
        let menu = menu.clone();
        move |i: u64| -> (String, Vec<usize>) {
            let d = digits(i, &[seq.len(), 3]);
            let l = seq.get(d[0] as u64);
            let t: Vec<&str> = l.iter().map(|&l| menu[l].0.as_str()).collect();
            (
                match d[1] {
                    0 => t.join("\n"),
                    1 => t.join("\n") + "\n",
                    _ => t.join("\r\n"),
                },
                l,
            )
        }
    };
    let t2 = text.clone();
    Suite::new(
        "files",
        "all files of at most 4 (5) lines of a menu of rules, initial nonterminals, blank lines and comments, three kinds of line ends; non-trivial: at least two rules",
        seq.len() * 3,
        move |i, obs| {
            let (t, lines) = text(i);
            let mut e = Grammar { initial: vec![], rules: vec![] };
            for l in lines {
                e.initial.extend(menu[l].1.iter().cloned());
                e.rules.extend(menu[l].2.iter().cloned());
            }
            obs.state(&t);
            obs.step();
            match format {
                Format::Cfg => {
                    let g = catch(|| t.parse::<CFG<String, String, f64>>()).map_err(|p| format!("panics: {}", p))?.map_err(|e| format!("not read: {}", e))?;
                    text::same("read", &text::of_cfg(&g), &e)?;
                }
                Format::Pmcfg => {
                    let g = catch(|| t.parse::<PMCFG<String, String, f64>>()).map_err(|p| format!("panics: {}", p))?.map_err(|e| format!("not read: {}", e))?;
                    text::same("read", &text::of_pmcfg(&g), &e)?;
                    let l = catch(|| t.parse::<Lcfrs<String, String, f64>>()).map_err(|p| format!("LCFRS: panics: {}", p))?;
                    match l {
                        Ok(l) if e.initial.len() == 1 => text::same("read as LCFRS", &text::of_lcfrs(l), &e)?,
                        Err(e) if e.is_empty() => return Err("an empty message".into()),
                        Err(_) if e.initial.len() != 1 => (),
                        Ok(_) => return Err("read as LCFRS without exactly one initial nonterminal".into()),
                        Err(x) => return Err(format!("not read as LCFRS: {}", x)),
                    }
                }
            }
            obs.trace();
            obs.outcome(&e);
            if e.rules.len() > 1 {
                obs.nontrivial();
                obs.note(|| t.clone());
            }
            Ok(())
        },
        move |i| format!("{:?}", t2(i).0),
    )
}

/// Long right-hand sides, many components, many nonterminals, many rules, long names.
fn long(format: Format, tier: Tier) -> Suite {
    let n = tier.pick(70u64, 300);
    let build = move |i: u64| -> Grammar {
        let d = digits(i, &[6, n]);
        let n = d[1];
        let one = |comp: Vec<Vec<Sym>>, tail: Vec<String>| Rule { head: "A".into(), comp, tail, weight: 0.5f64.to_bits() };
        let name = |k: usize| format!("n{}", k);
        let simple = |k: usize| one(vec![vec![Sym::T(name(k))]], vec![]);
        let mut g = Grammar { initial: vec!["A".into()], rules: vec![] };
        match (d[0], format) {
            (0, _) => g.rules = vec![one(vec![(0..n).map(|k| Sym::T(name(k))).collect()], vec![])],
            (1, Format::Cfg) => g.rules = vec![one(vec![(0..n).map(|k| Sym::N(name(k))).collect()], vec![])],
            (1, Format::Pmcfg) => g.rules = vec![one(vec![(0..n).map(|k| Sym::V(k, n - k)).collect()], (0..n).map(name).collect())],
            (2, Format::Cfg) => g.rules = vec![one(vec![(0..n).map(|k| if k % 3 == 0 { Sym::N(name(k)) } else { Sym::T(name(k)) }).collect()], vec![])],
            (2, Format::Pmcfg) => g.rules = vec![one((0..n).map(|k| vec![Sym::T(name(k)); k % 3]).collect(), vec![])],
            (3, _) => g.rules = (0..n).map(simple).collect(),
            (4, _) => g.initial = (0..n).map(name).collect(),
            _ => g.rules = vec![Rule { head: "x y".repeat(n), ..simple(0) }, one(vec![vec![Sym::T("ü→".repeat(n))]], vec![])],
        }
        g
    };
    Suite::new(
        "long",
        "rules, compositions, lists and names of all lengths up to 70 (300); non-trivial: no right-hand side is empty",
        6 * n,
        move |i, o| round_trip::<String, String>(&build(i), format, o),
        move |i| format!("{:?} (kind and length)", digits(i, &[6, n])),
    )
}

const SMALL: &[&str] = &["S", "a b", "\\\""];
const SMALLER: &[&str] = &["S", "% →"];

fn suites(format: Format, t: Tier) -> Vec<Suite> {
    let cfg = format == Format::Cfg;
    vec![
        one_rule::<String, String>("rules", &NAMES, if cfg { &WEIGHTS[..t.pick(4, 10)] } else { &WEIGHTS[..t.pick(2, 10)] }, 2, format),
        one_rule::<String, String>("weights", &NAMES[3..5], &WEIGHTS, 2, format),
        one_rule::<char, char>("characters", &["a", " ", "→", "%", "ü", "]", ")"], &WEIGHTS[..3], if cfg { 3 } else { t.pick(2, 3) }, format),
        one_rule::<usize, u8>("numbers", &["0", "7", "255"], &WEIGHTS[..3], if cfg { 4 } else { 3 }, format),
        if cfg {
            more_rules(if t == Tier::Quick { SMALLER } else { SMALL }, &[1.0, 0.3], 2, 2, format)
        } else {
            more_rules(SMALLER, if t == Tier::Quick { &[0.3] } else { &[1.0, 0.3] }, t.pick(1, 2), 2, format)
        },
        long(format, t),
        layouts(format, t),
        files(format, t),
    ]
}

pub fn c11() -> Check {
    Check {
        id: "C11",
        assumptions: vec!["names do not contain line breaks, and quotation marks and backslashes in them are escaped (names are printed and read as they are)"],
        build: |t| suites(Format::Cfg, t),
    }
}

pub fn c12() -> Check {
    Check {
        id: "C12",
        assumptions: vec!["names do not contain line breaks, and quotation marks and backslashes in them are escaped (names are printed and read as they are)"],
        build: |t| suites(Format::Pmcfg, t),
    }
}
