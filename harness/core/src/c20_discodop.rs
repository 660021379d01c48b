//! C20: disco-dop grammars and lexicons, against a reference reader.

use mc_common::enumerate::Sequences;
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::grammars::lcfrs::from_discodop::{DiscoDopGrammar, DiscoLexer};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::VarT;
use std::sync::Arc;

/// A line of a grammar.
#[derive(Clone, Debug, PartialEq)]
struct Line {
    lhs: String,
    rhs: Vec<String>,
    comp: Vec<Vec<(usize, usize)>>,
    count: f64,
}

/// How a text is to be read.
#[derive(Debug)]
enum Reading<A> {
    Is(A),
    Refused,
    /// the format does not settle it: refused, or read like this
    Either(A),
}

fn count(s: &str) -> Option<f64> {
    let digits = |s: &str| if !s.is_empty() && s.chars().all(|c| c.is_ascii_digit()) { s.parse::<f64>().ok() } else { None };
    match s.split_once('/') {
        Some((a, b)) => Some(digits(a)? / digits(b)?),
        None => digits(s),
    }
}

/// The words of a line, and whether its layout is the usual one.
fn words(l: &str) -> Option<(Vec<&str>, bool)> {
    if l.chars().any(|c| c.is_whitespace() && c != ' ' && c != '\t') {
        return None;
    }
    let usual = !l.starts_with([' ', '\t']) && !l.ends_with([' ', '\t']);
    Some((l.split([' ', '\t']).filter(|w| !w.is_empty()).collect(), usual))
}

fn rule(ws: &[&str]) -> Option<Line> {
    if ws.len() != 4 && ws.len() != 5 {
        return None;
    }
    let (rhs, rest) = ws[1..].split_at(ws.len() - 3);
    let mut next = [0, 0];
    let comp = rest[0]
        .split(',')
        .map(|c| {
            if c.len() > 64 {
                return None;
            }
            c.chars()
                .map(|c| {
                    let i = match c {
                        '0' => 0,
                        '1' => 1,
                        _ => return None,
                    };
                    next[i] += 1;
                    Some((i, next[i] - 1))
                })
                .collect()
        })
        .collect::<Option<Vec<Vec<_>>>>()?;
    Some(Line { lhs: ws[0].into(), rhs: rhs.iter().map(|s| s.to_string()).collect(), comp, count: count(rest[1])? })
}

fn read_lines<A>(text: &str, line: impl Fn(&[&str]) -> Option<Vec<A>>) -> Reading<Vec<A>> {
    let mut out = Vec::new();
    let mut sure = !text.is_empty();
    // white space at the end of the file is no line
    let body = text.trim_end();
    sure &= !text[body.len()..].contains(|c| c != '\n' && c != ' ' && c != '\t');
    for l in body.split('\n') {
        match words(l) {
            None => return Reading::Refused,
            Some((ws, _)) if ws.is_empty() => sure = false,
            Some((ws, usual)) => {
                sure &= usual;
                match line(&ws) {
                    Some(v) => out.extend(v),
                    None => return Reading::Refused,
                }
            }
        }
    }
    if sure {
        Reading::Is(out)
    } else {
        Reading::Either(out)
    }
}

fn read_grammar(text: &str) -> Reading<Vec<Line>> {
    let r = read_lines(text, |ws| rule(ws).map(|r| vec![r]));
    // empty components
    match r {
        Reading::Is(ls) if ls.iter().any(|l| l.comp.iter().any(|c| c.is_empty())) => Reading::Either(ls),
        r => r,
    }
}

/// Triples of word, tag and count.
fn read_lexicon(text: &str) -> Reading<Vec<(String, String, f64)>> {
    let r = read_lines(text, |ws| {
        if ws.len() < 3 || ws.len() % 2 == 0 {
            return None;
        }
        ws[1..].chunks(2).map(|p| Some((ws[0].to_string(), p[0].to_string(), count(p[1])?))).collect()
    });
    // a line that begins with white space may name the empty word
    match r {
        Reading::Refused if text.split('\n').any(|l| l.starts_with([' ', '\t'])) => Reading::Either(vec![]),
        r => r,
    }
}

type Rule = (String, Vec<String>, Vec<Vec<Result<String, (usize, usize)>>>, f64);

fn plain(g: Lcfrs<String, String, f64>) -> (Vec<Rule>, String) {
    let (rules, init) = g.destruct();
    let rules = rules
        .into_iter()
        .map(|r| {
            let comp = r
                .composition
                .composition
                .into_iter()
                .map(|c| {
                    c.into_iter()
                        .map(|s| match s {
                            VarT::T(t) => Ok(t),
                            VarT::Var(i, j) => Err((i, j)),
                        })
                        .collect()
                })
                .collect();
            (r.head, r.tail, comp, r.weight)
        })
        .collect();
    (rules, init)
}

fn expected(lines: &[Line], lexicon: &[(String, String, f64)]) -> Vec<Rule> {
    let total = |n: &str| -> f64 {
        lines.iter().filter(|l| l.lhs == n).map(|l| l.count).sum::<f64>() + lexicon.iter().filter(|l| l.1 == n).map(|l| l.2).sum::<f64>()
    };
    let mut out: Vec<Rule> = lines
        .iter()
        .map(|l| (l.lhs.clone(), l.rhs.clone(), l.comp.iter().map(|c| c.iter().map(|v| Err(*v)).collect()).collect(), l.count / total(&l.lhs)))
        .collect();
    for (word, tag, count) in lexicon {
        out.push((tag.clone(), vec![], vec![vec![Ok(word.clone())]], count / total(tag)));
    }
    out
}

fn same(got: (Vec<Rule>, String), mut e: Vec<Rule>, obs: &mut Obs) -> Verdict {
    let (mut got, init) = got;
    if init != "ROOT" {
        return Err(format!("the initial nonterminal is {:?}", init));
    }
    // the order of rules means nothing
    let key = |r: &Rule| format!("{:?}", (&r.0, &r.1, &r.2));
    got.sort_by(|a, b| key(a).cmp(&key(b)).then(a.3.total_cmp(&b.3)));
    e.sort_by(|a, b| key(a).cmp(&key(b)).then(a.3.total_cmp(&b.3)));
    let close = |a: f64, b: f64| a == b || (a - b).abs() <= 1e-9 * b.abs() || (!a.is_finite() && !b.is_finite());
    if got.len() != e.len() || got.iter().zip(&e).any(|(g, e)| key(g) != key(e) || !close(g.3, e.3)) {
        return Err(format!("the rules are {:?}, not {:?}", got, e));
    }
    obs.step();
    obs.outcome(&got.iter().map(|r| (key(r), r.3.to_bits())).collect::<Vec<_>>());
    Ok(())
}

fn parse<A: std::str::FromStr>(what: &str, t: &str) -> Result<Option<A>, String> {
    catch(|| t.parse::<A>().ok()).map_err(|p| format!("reading a {} panics: {}", what, p))
}

/// Reads a grammar and, maybe, a lexicon, and compares the rules.
fn files(g: &str, lex: Option<&str>, obs: &mut Obs) -> Verdict {
    obs.state(&(g, lex));
    let wf = |ls: &[Line]| ls.iter().all(|l| l.rhs.len() == 2 || l.comp.iter().flatten().all(|v| v.0 == 0));
    let grammar: Option<DiscoDopGrammar<String, (), f64>> = parse("grammar", g)?;
    obs.step();
    let lines = match (read_grammar(g), &grammar) {
        (Reading::Is(_), None) => return Err("the grammar is refused".into()),
        (Reading::Refused, Some(g)) => return Err(format!("the grammar is read as {:?}", g)),
        (Reading::Is(ls), Some(_)) | (Reading::Either(ls), Some(_)) => Some(ls),
        (_, None) => None,
    };
    let lexer: Option<DiscoLexer<String, String, f64>> = match lex {
        Some(l) => parse("lexicon", l)?,
        None => None,
    };
    let words = match lex.map(read_lexicon) {
        None => None,
        Some(r) => match (r, &lexer) {
            (Reading::Is(_), None) => return Err("the lexicon is refused".into()),
            (Reading::Refused, Some(l)) => return Err(format!("the lexicon is read as {:?}", l)),
            (Reading::Is(ls), Some(_)) => Some(Some(ls)),
            // the empty word: not settled
            (Reading::Either(ls), Some(_)) => Some(if lex.unwrap().split('\n').any(|l| l.starts_with([' ', '\t'])) { None } else { Some(ls) }),
            (_, None) => None,
        },
    };
    obs.trace();
    let (lines, grammar) = match (lines, grammar) {
        (Some(l), Some(g)) => (l, g),
        _ => return Ok(()),
    };
    // counts of zero only cannot be normalised; variables of missing nonterminals mean nothing
    match (words, lexer) {
        (Some(Some(ws)), Some(lexer)) => {
            let e = expected(&lines, &ws);
            if !wf(&lines) {
                return Ok(());
            }
            let got: Lcfrs<String, String, f64> = catch(|| grammar.with_lexer(lexer).into()).map_err(|p| format!("panics: {}", p))?;
            same(plain(got), e, obs)?;
            if !lines.is_empty() && !ws.is_empty() {
                obs.nontrivial();
                obs.note(|| format!("{:?} {:?}", g, lex));
            }
        }
        _ if lex.is_none() => {
            if !wf(&lines) {
                return Ok(());
            }
            // each nonterminal without a rule stands for itself
            let mut leaves: Vec<&String> = lines.iter().flat_map(|l| &l.rhs).filter(|r| !lines.iter().any(|l| l.lhs == **r)).collect();
            leaves.sort();
            leaves.dedup();
            let leaves: Vec<(String, String, f64)> = leaves.into_iter().map(|l| (l.clone(), l.clone(), 1.0)).collect();
            let got: Lcfrs<String, String, f64> = catch(|| grammar.with_default_lexer().into()).map_err(|p| format!("panics: {}", p))?;
            same(plain(got), expected(&lines, &leaves), obs)?;
            if !leaves.is_empty() {
                obs.nontrivial();
                obs.note(|| format!("{:?}", g));
            }
        }
        _ => (),
    }
    Ok(())
}

const RULES: [&str; 9] = [
    "ROOT\tS\t0\t3",
    "S\tA\tB\t010,1\t2",
    "S A B 01 1/3",
    "S\tS\tA\t01,10\t5/2",
    "A\tB\t000\t10",
    "A\tA\t0,0\t1",
    "B\tA\tA\t10,01,1\t7/7",
    "NP|<a,b>^<s>\t0\t1\t01\t4",
    "S\tA\tB\t010,1\t2/5",
];
const LEXICON: [&str; 6] = ["w\tA\t1", "v A 1/2 B 3", "w\tS\t4\tB\t2/3", "0\tC\t1", "w A 2 A 3", "ü,/x\t1/2\t5\t0\t1"];

fn join(menu: &[&str], pick: &[usize]) -> String {
    pick.iter().map(|&i| menu[i]).collect::<Vec<_>>().join("\n")
}

fn with_lexicon(tier: Tier) -> Suite {
    let g = Sequences::new(RULES.len(), tier.pick(3, 4));
    let l = Sequences::new(LEXICON.len(), tier.pick(2, 3));
    let n = l.len();
    let get = move |i: u64| {
        let (a, b) = (g.get(i / n), l.get(i % n));
        (join(&RULES, &a), join(&LEXICON, &b))
    };
    let g2 = get.clone();
    Suite::new(
        "lexicon",
        "all sequences of at most 3 (4) of 9 rules with all of at most 2 (3) of 6 lines of a lexicon; non-trivial: both non-empty",
        Sequences::new(RULES.len(), tier.pick(3, 4)).len() * n,
        move |i, o| {
            let (g, l) = get(i);
            files(&g, Some(&l), o)
        },
        move |i| format!("{:?}", g2(i)),
    )
}

fn without_lexicon(tier: Tier) -> Suite {
    let g = Sequences::new(RULES.len(), tier.pick(5, 6));
    let n = g.len();
    let get = move |i: u64| join(&RULES, &g.get(i));
    let g2 = get.clone();
    Suite::new(
        "default-lexicon",
        "all sequences of at most 5 (6) of 9 rules; non-trivial: there are nonterminals without rules",
        n,
        move |i, o| files(&get(i), None, o),
        move |i| format!("{:?}", g2(i)),
    )
}

fn yields(tier: Tier) -> Suite {
    let mut cases: Vec<String> = Vec::new();
    let s = Sequences::new(3, tier.pick(9, 12));
    for i in 0..s.len() {
        cases.push(s.get(i).into_iter().map(|c| ['0', '1', ','][c]).collect());
    }
    for n in 1..=70usize {
        for p in ["0", "1", "01", "0111", "1000000000000000000000000000000", ","] {
            cases.push(p.repeat(n).chars().take(n).collect());
            cases.push(format!("{},0", p.repeat(n).chars().take(n).collect::<String>()));
            cases.push(format!("{}1", p.repeat(n).chars().take(n).collect::<String>()));
        }
    }
    Suite::over(
        "yields",
        "all yield functions of at most 9 (12) characters, and some of up to 71; non-trivial: read",
        cases,
        |y, o| {
            for t in [format!("S A B {} 2", y), format!("S\tA\t{}\t2", y)] {
                files(&t, None, o)?;
            }
            Ok(())
        },
        |y| y.clone(),
    )
}

fn fragments(name: &'static str, alphabet: &'static [&'static str], n: u32, lexicon: bool) -> Suite {
    let s = Sequences::new(alphabet.len(), n);
    let len = s.len();
    let get = move |i: u64| -> String { s.get(i).into_iter().map(|c| alphabet[c]).collect() };
    let g2 = get.clone();
    Suite::new(
        name,
        "all sequences of fragments of lines up to a length; non-trivial: read",
        len,
        move |i, o| {
            let t = get(i);
            if lexicon {
                files("S A 0 1", Some(&t), o)
            } else {
                files(&t, None, o)
            }
        },
        move |i| format!("{:?}", g2(i)),
    )
}

fn edits(tier: Tier) -> Suite {
    let base: Vec<(String, bool)> = vec![
        (join(&RULES, &[0, 1, 2]), false),
        (join(&RULES, &[3, 7]) + "\n", false),
        (join(&LEXICON, &[1, 2]), true),
        (join(&LEXICON, &[0, 5]) + "\n", true),
    ];
    let chars: Vec<char> = "0 1,/\t\nS2.-é".chars().collect();
    let edit = |t: &str| -> Vec<String> {
        let cs: Vec<char> = t.chars().collect();
        let mut out = Vec::new();
        for i in 0..=cs.len() {
            for c in &chars {
                let mut x = cs.clone();
                x.insert(i, *c);
                out.push(x.iter().collect());
                if i < cs.len() {
                    let mut x = cs.clone();
                    x[i] = *c;
                    out.push(x.iter().collect());
                }
            }
            if i < cs.len() {
                let mut x = cs.clone();
                x.remove(i);
                out.push(x.iter().collect());
            }
        }
        out
    };
    let mut cases: Vec<(String, bool)> = Vec::new();
    for (t, l) in &base {
        for e in edit(t) {
            if tier == Tier::Thorough {
                cases.extend(edit(&e).into_iter().map(|e| (e, *l)));
            }
            cases.push((e, *l));
        }
    }
    cases.sort();
    cases.dedup();
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    Suite::new(
        "edits",
        "all single (double) edits of four files; non-trivial: still read",
        cases.len() as u64,
        move |i, o| {
            let (t, l) = &cases[i as usize];
            if *l {
                files("S A 0 1", Some(t), o)
            } else {
                files(t, None, o)
            }
        },
        move |i| format!("{:?}", c2[i as usize]),
    )
}

pub fn check() -> Check {
    Check {
        id: "C20",
        assumptions: vec![
            "rules with one nonterminal on the right do not use variables of a second one",
            "the format does not settle empty files, empty lines, white space around lines, empty words and empty components: refused or read in the obvious way",
        ],
        build: |t| {
            vec![
                with_lexicon(t),
                without_lexicon(t),
                yields(t),
                fragments("grammar-fragments", &["S", " ", "\t", "\n", "0", "1 ", "/", "A 0 1", "S A B 01,10 "], t.pick(5, 7), false),
                fragments("lexicon-fragments", &["w", " ", "\t", "\n", "2", "/", " A 1", "w A 1/2"], t.pick(5, 7), true),
                edits(t),
            ]
        },
    }
}
