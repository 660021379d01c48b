//! C34: automata survive being printed and read; text is read as documented or refused.

use crate::parse::{collect, Cost, End};
use crate::text::Reader;
use mc_common::enumerate::{subsets, words, Sequences};
use mc_common::{catch, Check, Obs, Suite, Tier, Verdict};
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::automaton::{recognise, Automaton};
use rustomata::recognisable::{Configuration, Item, Transition};
use rustomata::util::push_down::Pushdown;
use std::collections::BTreeSet;
use std::sync::Arc;

type Fsa = FiniteStateAutomaton<String, String, Cost>;
type Tsa = TreeStackAutomaton<String, String, Cost>;

/// What there is to see of an automaton; the states of an instruction in the order of the notation.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seen {
    initial: String,
    finals: BTreeSet<String>,
    /// word, name of the instruction, number of the child, states, cost
    transitions: Vec<(Vec<String>, &'static str, usize, Vec<String>, i64)>,
}

impl Seen {
    fn sorted(mut self) -> Seen {
        self.transitions.sort();
        self
    }
}

fn of_fsa(a: &Fsa) -> Result<Seen, String> {
    let mut names = BTreeSet::new();
    let mut transitions = Vec::new();
    for t in a.list_transitions() {
        let s = t.instruction.to_string();
        let inner = s.strip_prefix('(').and_then(|s| s.strip_suffix(')')).unwrap_or(&s);
        let (p, q) = inner.split_once(" → ").ok_or(format!("instruction printed as {:?}", s))?;
        names.extend([p.to_string(), q.to_string()]);
        transitions.push((t.word, "", 0, vec![p.to_string(), q.to_string()], t.weight.0.unwrap()));
    }
    // the final states are those in which an empty word ends; numbers of states beyond the known
    // ones make `item_map` panic
    let mut finals = BTreeSet::new();
    for i in 0.. {
        let c = Configuration { word: Vec::<usize>::new(), storage: i, weight: Cost(Some(0)) };
        let last = a.is_terminal(&c);
        match catch(|| a.item_map(&Item(c, Pushdown::from([].as_slice()))).0.storage) {
            Ok(q) => {
                if last {
                    finals.insert(q);
                }
            }
            Err(_) if last => return Err(format!("state number {} is final, but unknown", i)),
            Err(_) => break,
        }
    }
    Ok(Seen { initial: a.initial(), finals, transitions }.sorted())
}

fn of_tsa(a: &Tsa) -> Result<Seen, String> {
    let i = TreeStackAutomaton::initial(a);
    if i != TreeStack::new(i.current_symbol().clone()) {
        return Err("the initial tree stack has more than its root".into());
    }
    let transitions = a
        .list_transitions()
        .map(|t| {
            let (name, n, states) = match t.instruction {
                TreeStackInstruction::Up { n, current_val, old_val, new_val } => ("Up", n, vec![current_val, old_val, new_val]),
                TreeStackInstruction::Push { n, current_val, new_val } => ("Push", n, vec![current_val, new_val]),
                TreeStackInstruction::Down { current_val, old_val, new_val } => ("Down", 0, vec![current_val, old_val, new_val]),
            };
            (t.word, name, n, states, t.weight.0.unwrap())
        })
        .collect();
    Ok(Seen { initial: i.current_symbol().clone(), finals: BTreeSet::new(), transitions }.sorted())
}

fn fsa_instruction(p: &str, q: &str) -> FiniteStateInstruction<String> {
    format!("{} → {}", p, q).parse().expect("an instruction")
}

fn tsa_instruction(name: &str, n: usize, s: &[String]) -> TreeStackInstruction<String> {
    match name {
        "Up" => TreeStackInstruction::Up { n, current_val: s[0].clone(), old_val: s[1].clone(), new_val: s[2].clone() },
        "Push" => TreeStackInstruction::Push { n, current_val: s[0].clone(), new_val: s[1].clone() },
        _ => TreeStackInstruction::Down { current_val: s[0].clone(), old_val: s[1].clone(), new_val: s[2].clone() },
    }
}

fn build_fsa(s: &Seen) -> Fsa {
    FiniteStateAutomaton::new(
        s.transitions.iter().map(|(w, _, _, q, c)| Transition { word: w.clone(), weight: Cost(Some(*c)), instruction: fsa_instruction(&q[0], &q[1]) }),
        s.initial.clone(),
        s.finals.iter().cloned(),
    )
}

fn build_tsa(s: &Seen) -> Tsa {
    TreeStackAutomaton::new(
        s.transitions.iter().map(|(w, name, n, q, c)| Transition { word: w.clone(), weight: Cost(Some(*c)), instruction: tsa_instruction(name, *n, q) }),
        TreeStack::new(s.initial.clone()),
    )
}

macro_rules! first {
    ($a:expr) => {
        |w: &[String]| {
            let (found, end) = collect(|| recognise($a, w.to_vec()), 1, 3_000, 0, 0)?;
            Ok((found.first().map(|i| i.0.weight), end == End::Budget))
        }
    };
}

fn round_trip(s: &Seen, fsa: bool, accept: usize, obs: &mut Obs) -> Verdict {
    let s = &s.clone().sorted();
    let mut alphabet: Vec<String> = s.transitions.iter().flat_map(|t| t.0.clone()).collect();
    alphabet.sort();
    alphabet.dedup();
    let inputs = words(&alphabet, accept as u32);
    let (text, accepted): (String, usize);
    if fsa {
        let a = build_fsa(s);
        let seen = of_fsa(&a)?;
        if seen != *s {
            return Err(format!("built as {:?}", seen));
        }
        text = a.to_string();
        let b: Fsa = catch(|| text.parse()).map_err(|p| format!("reading {:?} panics: {}", text, p))?.map_err(|e| format!("{:?} is refused: {}", text, e))?;
        let again = of_fsa(&b)?;
        if again != *s {
            return Err(format!("{:?} is read as {:?}", text, again));
        }
        accepted = same_answers(first!(&a), first!(&b), &inputs)?;
    } else {
        let a = build_tsa(s);
        let seen = of_tsa(&a)?;
        if seen != *s {
            return Err(format!("built as {:?}", seen));
        }
        text = a.to_string();
        let b: Tsa = catch(|| text.parse()).map_err(|p| format!("reading {:?} panics: {}", text, p))?.map_err(|e| format!("{:?} is refused: {}", text, e))?;
        let again = of_tsa(&b)?;
        if again != *s {
            return Err(format!("{:?} is read as {:?}", text, again));
        }
        accepted = same_answers(first!(&a), first!(&b), &inputs)?;
    }
    obs.step();
    obs.trace();
    obs.state(s);
    obs.outcome(&text);
    obs.count("accepted words", accepted as u64);
    if !s.transitions.is_empty() {
        obs.nontrivial();
        obs.note(|| text);
    }
    Ok(())
}

type Answer = (Option<Cost>, bool);

fn same_answers(a: impl Fn(&[String]) -> Result<Answer, String>, b: impl Fn(&[String]) -> Result<Answer, String>, inputs: &[Vec<String>]) -> Result<usize, String> {
    let mut n = 0;
    for w in inputs {
        let (x, y) = (a(w)?, b(w)?);
        if !x.1 && !y.1 && x.0 != y.0 {
            return Err(format!("{:?}: a best run of weight {:?}, after printing and reading {:?}", w, x.0, y.0));
        }
        n += x.0.is_some() as usize;
    }
    Ok(n)
}

fn strings(x: &[&str]) -> Vec<String> {
    x.iter().map(|s| s.to_string()).collect()
}

/// All automata with up to `k` transitions of a menu, some initial symbols and final states.
fn automata(
    name: &'static str,
    about: &'static str,
    fsa: bool,
    menu: Vec<(Vec<String>, &'static str, usize, Vec<String>)>,
    k: u32,
    ends: Vec<(String, Vec<String>)>,
    costs: Vec<i64>,
    accept: usize,
) -> Suite {
    let choices = Sequences::new(menu.len() * costs.len(), k);
    let ends = Arc::new(ends);
    let (m, e) = (Arc::new(menu), ends.clone());
    let get = move |i: u64| {
        let (i, j) = (i / e.len() as u64, (i % e.len() as u64) as usize);
        let transitions = choices
            .get(i)
            .into_iter()
            .map(|x| {
                let (w, name, n, q) = m[x / costs.len()].clone();
                (w, name, n, q, costs[x % costs.len()])
            })
            .collect();
        Seen { initial: e[j].0.clone(), finals: e[j].1.iter().cloned().collect(), transitions }
    };
    let g = get.clone();
    Suite::new(name, about, choices.len() * ends.len() as u64, move |i, o| round_trip(&get(i), fsa, accept, o), move |i| format!("{:?}", g(i)))
}

fn fsa_ends(states: &[&str]) -> Vec<(String, Vec<String>)> {
    let finals = subsets(&strings(states), 1, states.len());
    states.iter().flat_map(|i| finals.iter().map(move |f| (i.to_string(), f.clone()))).collect()
}

fn fsa_menu(states: &[&str], ws: &[&[&str]]) -> Vec<(Vec<String>, &'static str, usize, Vec<String>)> {
    let mut out = Vec::new();
    for w in ws {
        for p in states {
            for q in states {
                out.push((strings(w), "", 0, strings(&[p, q])));
            }
        }
    }
    out
}

fn tsa_menu(states: &[&str], ws: &[&[&str]], children: &[usize]) -> Vec<(Vec<String>, &'static str, usize, Vec<String>)> {
    let mut out = Vec::new();
    for w in ws {
        for p in states {
            for q in states {
                for n in children {
                    out.push((strings(w), "Push", *n, strings(&[p, q])));
                }
                for r in states {
                    for n in children {
                        out.push((strings(w), "Up", *n, strings(&[p, q, r])));
                    }
                    out.push((strings(w), "Down", 0, strings(&[p, q, r])));
                }
            }
        }
    }
    out
}

/// Symbols and names that may need quotes, in words and as states.
fn names(tier: Tier) -> Suite {
    let symbols = ["a", "", " ", "b c", ",", "]", "[", ")", "(", "%", "#", "→", "->", "-", ";", "ü", "日本", "'", "Transition", "1", "a, b", "] (x → y) # 1", "initial:", "⊥"];
    let states = ["p", "q1", "0", "ü", "日本", "->", "→", "-1", "a,b", "[x]", "q;", "#", "%", "a%b", "=", "'", "Push", "initial:", "18"];
    let k = tier.pick(2u32, 3);
    let mut cases = Vec::new();
    for w in words(&symbols, k) {
        let w = strings(&w);
        for fsa in [true, false] {
            cases.push((fsa, Seen {
                initial: "p".into(),
                finals: if fsa { BTreeSet::from(["q".into()]) } else { BTreeSet::new() },
                transitions: vec![if fsa { (w.clone(), "", 0, strings(&["p", "q"]), 1) } else { (w.clone(), "Push", 3, strings(&["p", "q"]), 1) }],
            }));
        }
    }
    for i in states {
        for p in states {
            for q in states {
                let w = strings(&["a"]);
                cases.push((true, Seen { initial: i.into(), finals: BTreeSet::from([p.into(), q.into()]), transitions: vec![(w.clone(), "", 0, strings(&[p, q]), 3)] }));
                for t in [(w.clone(), "Push", 7, strings(&[p, q]), 2), (w.clone(), "Up", 11, strings(&[p, q, i]), 2), (w.clone(), "Down", 0, strings(&[p, i, q]), 2)] {
                    cases.push((false, Seen { initial: i.into(), finals: BTreeSet::new(), transitions: vec![t] }));
                }
            }
        }
    }
    Suite::over(
        "names",
        "all words of up to two (three) of 24 symbols, among them all with a meaning in the notation, and all combinations of 19 names of states (without \
         white space, quotes, backslashes and parentheses); non-trivial: all",
        cases,
        |(fsa, s), o| round_trip(s, *fsa, 2, o),
        |(fsa, s)| format!("{} {:?}", if *fsa { "FSA" } else { "TSA" }, s),
    )
}

fn large(tier: Tier) -> Suite {
    let mut cases = Vec::new();
    for n in (1..=tier.pick(40usize, 150)).chain([255, 256, 257, 400]) {
        for kind in 0..4 {
            cases.push((n, kind));
        }
    }
    Suite::over(
        "large",
        "automata with n transitions in a chain, with n final states, with a word of n symbols, and with children up to number n, for all n up to 40 (150) and \
         some up to 400",
        cases,
        |&(n, kind), o| {
            let q = |i: usize| format!("q{}", i);
            let w = |i: usize| vec![format!("a{}", i % 3)];
            let s = match kind {
                0 => Seen { initial: q(0), finals: BTreeSet::from([q(n)]), transitions: (0..n).map(|i| (w(i), "", 0, vec![q(i), q(i + 1)], i as i64)).collect() },
                1 => Seen { initial: q(0), finals: (0..n).filter(|i| i % 3 != 1 || n < 3).map(q).collect(), transitions: (0..n).map(|i| (w(0), "", 0, vec![q(0), q(i)], 1)).collect() },
                2 => Seen { initial: q(0), finals: BTreeSet::from([q(1)]), transitions: vec![((0..n).flat_map(w).collect(), "", 0, vec![q(0), q(1)], n as i64)] },
                _ => Seen {
                    initial: q(0),
                    finals: BTreeSet::new(),
                    transitions: (0..n)
                        .flat_map(|i| [(w(i), "Push", i, vec![q(0), q(i)], 1), (w(1), "Up", i, vec![q(0), q(i), q(1)], 2), (vec![], "Down", 0, vec![q(i), q(0), q(2)], -1)])
                        .collect(),
                },
            };
            round_trip(&s, kind < 3, 1, o)
        },
        |c| format!("{:?} (n, kind)", c),
    )
    .limit(60)
}

/// A reference reader for automata, from the documentation and the example.
fn read(text: &str, fsa: bool) -> Option<Seen> {
    let (mut initial, mut finals, mut transitions) = (None, Vec::new(), Vec::new());
    for l in text.lines() {
        let l = l.trim();
        let mut r = Reader::new(l);
        if r.tag("initial:") {
            r.ws();
            initial = Some(r.token().ok()?);
            // anything may follow
        } else if fsa && r.tag("final:") {
            r.ws();
            finals = r.list("[", "]", &|r| r.token()).ok()?;
        } else if !l.is_empty() && !l.starts_with('%') {
            r.need("Transition").ok()?;
            r.ws();
            let word = r.list("[", "]", &|r| r.token()).ok()?;
            r.ws();
            r.need("(").ok()?;
            let (inner, _) = r.rest().split_once(')')?;
            let parts: Vec<&str> = inner.split_whitespace().collect();
            let s = |i: &[usize]| i.iter().map(|i| parts[*i].to_string()).collect::<Vec<_>>();
            let number = || parts[1].parse::<usize>().ok();
            let (name, n, q) = match (fsa, parts.first().copied().unwrap_or(""), parts.len()) {
                (true, _, 3) if ["→", "->"].contains(&parts[1]) => ("", 0, s(&[0, 2])),
                (false, "Up", 5) => ("Up", number()?, s(&[2, 3, 4])),
                (false, "Push", 4) => ("Push", number()?, s(&[2, 3])),
                (false, "Down", 4) => ("Down", 0, s(&[1, 2, 3])),
                _ => return None,
            };
            assert!(r.tag(inner) && r.tag(")"));
            r.ws();
            let mut cost = 0;
            if r.tag("#") {
                r.ws();
                let end = r.rest().find([' ', '\t']).unwrap_or(r.rest().len());
                let weight = r.rest()[..end].to_string();
                cost = weight.parse().ok()?;
                r.tag(&weight);
            }
            r.end().ok()?;
            transitions.push((word, name, n, q, cost));
        }
    }
    if fsa && finals.is_empty() {
        return None;
    }
    Some(Seen { initial: initial?, finals: finals.into_iter().collect(), transitions }.sorted())
}

fn reading(t: &str, fsa: bool, obs: &mut Obs) -> Verdict {
    let e = read(t, fsa);
    let got = if fsa {
        catch(|| t.parse::<Fsa>()).map(|a| a.ok().map(|a| of_fsa(&a)))
    } else {
        catch(|| t.parse::<Tsa>()).map(|a| a.ok().map(|a| of_tsa(&a)))
    };
    let got = got.map_err(|p| format!("reading panics: {}", p))?.transpose()?;
    if got != e {
        return Err(format!("read as {:?}, not {:?}", got, e));
    }
    // numbers as states, characters as symbols: no crash
    let numbers = if fsa { catch(|| t.parse::<FiniteStateAutomaton<u8, char, usize>>().is_ok()) } else { catch(|| t.parse::<TreeStackAutomaton<u8, char, usize>>().is_ok()) };
    let numbers = numbers.map_err(|p| format!("reading with numbers panics: {}", p))?;
    if numbers && e.is_none() {
        return Err("read with numbers, although it is no automaton".into());
    }
    obs.state(&(t, fsa));
    obs.step();
    obs.trace();
    obs.outcome(&e);
    if e.is_some() {
        obs.nontrivial();
        obs.note(|| t.to_string());
    }
    Ok(())
}

const FSA_TEXTS: &[&str] = &[
    "% c\ninitial: 0 % c\nfinal: [1, 2]\n\nTransition [a, \"b c\"] (0 → 1) # 2 % c\n  Transition [] (1 -> 2)\n",
    "final: [\"1\"]\n initial:\"0\"\nTransition[](0 → 1)#3",
];
const TSA_TEXTS: &[&str] = &[
    "% c\ninitial: 18 % c\n\nTransition [\"d\"] (Up 0 12 2 13) # 2 % c\n\tTransition [a, b] (Push 1 2 3)\n",
    "initial:\"18\"\nTransition[](Down 13 15 16)#3\nTransition [] (Push 0 18 18) # 0",
];
const FRAGMENTS: &[&str] = &["", " ", "\t", "\n", "a", "0", "\"", "\\", "[", "]", "(", ")", "#", "%", ",", "-", "→", "ü", "()", "[]", "Transition", " % x", "initial:", "final:"];

fn edits(name: &'static str, fsa: bool, tier: Tier) -> Suite {
    let mut all: BTreeSet<String> = BTreeSet::new();
    for b in if fsa { FSA_TEXTS } else { TSA_TEXTS } {
        let once = edit(b, FRAGMENTS);
        if tier == Tier::Thorough {
            for t in &once {
                all.extend(edit(t, &FRAGMENTS[1..5]));
            }
        }
        all.extend(once);
    }
    Suite::over(
        name,
        "all edits (two edits in the thorough tier) of well-formed texts: deleting, inserting, replacing, repeating, cutting at any place; non-trivial: an \
         automaton is read",
        all.into_iter().collect(),
        move |t: &String, o| reading(t, fsa, o),
        |t| format!("{:?}", t),
    )
}

fn edit(text: &str, f: &[&str]) -> Vec<String> {
    let base: Vec<char> = text.chars().collect();
    let s = |r: &[char]| r.iter().collect::<String>();
    let mut out = Vec::new();
    for p in 0..=base.len() {
        out.push(s(&base[..p]));
        out.push(s(&base[p..]));
        for x in f {
            out.push(s(&base[..p]) + x + &s(&base[p..]));
            if p < base.len() {
                out.push(s(&base[..p]) + x + &s(&base[p + 1..]));
            }
        }
        for q in p + 1..=base.len().min(p + 6) {
            out.push(s(&base[..p]) + &s(&base[q..]));
            out.push(s(&base[..q]) + &s(&base[p..]));
        }
    }
    out
}

/// All selections and orders of lines and of the parts of a transition.
fn lines(tier: Tier) -> Suite {
    let lines = [
        "initial: 0", "initial: 1 % c", "final: [0]", "final: [1, 2]", "final: []", "", "  ", "% c", "Transition [a] (0 → 1) # 2", "Transition [a] (Push 0 0 1) # 2",
        "Transition [] (Down 0 0 0)", "Transition [] (0 -> 0)", "x",
    ];
    let seq = Sequences::new(lines.len() * 2, tier.pick(4, 5));
    let get = move |i: u64| -> (String, bool) {
        let s = seq.get(i);
        let fsa = s.first().map_or(true, |x| x % 2 == 0);
        (s.iter().map(|x| lines[x / 2]).collect::<Vec<_>>().join(if s.get(1).map_or(true, |x| x % 2 == 0) { "\n" } else { "\r\n" }), fsa)
    };
    Suite::new(
        "lines",
        "all sequences of up to four (five) of 13 lines with either end of line, read as either kind; non-trivial: an automaton is read",
        seq.len(),
        move |i, o| {
            let (t, fsa) = get(i);
            reading(&t, fsa, o)
        },
        move |i| format!("{:?}", get(i)),
    )
}

fn parts(tier: Tier) -> Suite {
    let fragments = ["Transition", " ", "[", "a", "]", "(", "0 → 1", "Push 0 1 2", ")", "#", "2", "%"];
    let seq = Sequences::new(fragments.len(), tier.pick(4, 5));
    let heads = ["", "Transition ", "Transition [] ", "Transition [a] (0 → 1)", "Transition [] (Push 0 1 2)", "Transition [] (0 → 1) # 2"];
    let get = move |i: u64| -> String {
        let (i, h) = (i / 6, (i % 6) as usize);
        format!("initial: 0\nfinal: [0]\n{}{}", heads[h], seq.get(i).into_iter().map(|x| fragments[x]).collect::<String>())
    };
    Suite::new(
        "parts",
        "all sequences of up to four (five) of the 12 parts of a transition after six beginnings; non-trivial: an automaton is read",
        seq.len() * 6,
        move |i, o| {
            let t = get(i);
            reading(&t, true, o)?;
            reading(&t.replace("final: [0]\n", ""), false, o)
        },
        move |i| format!("{:?}", get(i)),
    )
}

/// A transition of a pushdown automaton: word, popped symbols, pushed symbols, cost.
type Replacement = (Vec<String>, Vec<String>, Vec<String>, i64);

/// The tokens between quotation marks (tokens have none inside), if there is nothing between them
/// but commas and spaces.
fn quoted(s: &str) -> Option<Vec<String>> {
    let parts: Vec<&str> = s.split('"').collect();
    let plain = |p: &str| p.chars().all(|c| c == ',' || c == ' ');
    if parts.len() % 2 == 0 || !parts.iter().step_by(2).all(|p| plain(p)) {
        return None;
    }
    Some(parts.iter().skip(1).step_by(2).map(|p| p.to_string()).collect())
}

/// What the text of a pushdown automaton says: the initial pushdown (bottom first), the bottom, and
/// the transitions.
fn read_pushdown(text: &str) -> Option<(Vec<String>, String, Vec<Replacement>)> {
    let (mut initial, mut ts) = (None, Vec::new());
    for l in text.lines().map(str::trim).filter(|l| !l.is_empty()) {
        if let Some(l) = l.strip_prefix("initial: stack: [") {
            let (stack, empty) = l.split_once("], empty:")?;
            let old = initial.replace((stack.split(' ').filter(|s| !s.is_empty()).map(String::from).collect(), empty.trim().to_string()));
            if old.is_some() {
                return None;
            }
        } else {
            let (word, l) = l.strip_prefix("Transition [")?.split_once("] (Replace ")?;
            let (replace, cost) = l.split_once(')')?;
            let (pop, push) = replace.split_once(" // ")?;
            ts.push((quoted(word)?, quoted(pop)?, quoted(push)?, cost.trim().strip_prefix('#')?.trim().parse().ok()?));
        }
    }
    ts.sort();
    let (stack, empty) = initial?;
    Some((stack, empty, ts))
}

fn print_pushdown(initial: &[String], ts: &[Replacement], obs: &mut Obs) -> Verdict {
    let a: PushDownAutomaton<String, String, Cost> = PushDownAutomaton::new(
        ts.iter().map(|(w, pop, push, c)| Transition {
            word: w.clone(),
            weight: Cost(Some(*c)),
            instruction: PushDownInstruction::Replace { current_val: pop.clone(), new_val: push.clone() },
        }),
        PushDown::from(initial.to_vec()),
    );
    let text = a.to_string();
    let mut sorted = ts.to_vec();
    sorted.sort();
    let want = Some((initial.to_vec(), initial[0].clone(), sorted));
    obs.step();
    obs.trace();
    obs.state(&(initial, ts));
    obs.outcome(&text);
    if ts.len() > 1 {
        obs.nontrivial();
        obs.note(|| text.clone());
    }
    if read_pushdown(&text) != want {
        return Err(format!("printed as {:?}", text));
    }
    Ok(())
}

/// There is no reader for pushdown automata, but they are printed.
fn pushdowns(tier: Tier) -> Suite {
    let x = strings(&["Z", "A", "b"]);
    let mut menu: Vec<Replacement> = Vec::new();
    for w in [strings(&[]), strings(&["a"]), strings(&["a", "b c"])] {
        // the reverse of what is popped is what lies on the pushdown; nothing popped is not supported
        for pop in [strings(&["A"]), strings(&["A", "Z"]), strings(&["b", "A"])] {
            for push in words(&x, 2) {
                menu.push((w.clone(), pop.clone(), push, menu.len() as i64 % 7));
            }
        }
    }
    let mut cases: Vec<(Vec<String>, Vec<Replacement>)> = Vec::new();
    for initial in [strings(&["Z"]), strings(&["Z", "A"]), strings(&["b", "Z", "A"])] {
        cases.push((initial.clone(), vec![]));
        for t in &menu {
            cases.push((initial.clone(), vec![t.clone()]));
        }
        for t in &menu {
            for u in &menu {
                if t < u {
                    cases.push((initial.clone(), vec![t.clone(), u.clone()]));
                }
            }
        }
    }
    for n in (1..=tier.pick(60usize, 200)).chain([255, 256, 257]) {
        let s = |i: usize| format!("s{}", i);
        let all: Vec<String> = (0..=n).map(s).collect();
        cases.push((all.clone(), vec![(all.clone(), all[..1].to_vec(), all[1..].to_vec(), 1)]));
        cases.push((strings(&["Z"]), vec![(vec![], all.clone(), vec![], n as i64)]));
        cases.push((strings(&["Z"]), (0..n).map(|i| (vec![s(i)], vec![s(i % 3)], vec![s(n - i)], i as i64)).collect()));
    }
    Suite::over(
        "pushdowns",
        "all sets of up to two transitions of pushdown automata from a menu of 117, three initial pushdowns; n transitions, n symbols on the pushdown, in a word, popped \
         and pushed, for n up to 60 (200) and around 256: what is printed shows the initial pushdown and every transition; non-trivial: more than one transition",
        cases,
        |(i, ts), o| print_pushdown(i, ts, o),
        |c| format!("{:?}", c),
    )
}

pub fn check() -> Check {
    Check {
        id: "C34",
        assumptions: vec![
            "states are written without white space, quotes, backslashes and parentheses, symbols without quotes and backslashes",
            "finite-state automata have a final state (others are refused), the initial tree stack is a root",
        ],
        build: |t| {
            let costs = vec![0, 3];
            vec![
                automata(
                    "fsa",
                    "all finite-state automata with up to three (four) transitions between two states, all final states; answers to words of up to two symbols; \
                     non-trivial: there is a transition",
                    true,
                    fsa_menu(&["p", "1"], &[&[], &["a"], &["b", "a"]]),
                    t.pick(3, 4),
                    fsa_ends(&["p", "1"]),
                    vec![1],
                    2,
                ),
                automata(
                    "fsa-weights",
                    "all finite-state automata with up to two (three) transitions between three states, each with one of two weights, all sets of final states, \
                     also ones without transitions; non-trivial: there is a transition",
                    true,
                    fsa_menu(&["2", "0", "1"], &[&["x"]]),
                    t.pick(2, 3),
                    fsa_ends(&["2", "0", "1", "7"]),
                    costs.clone(),
                    1,
                ),
                automata(
                    "tsa",
                    "all tree-stack automata with up to two (three) transitions over two symbols; answers to words of up to two symbols; non-trivial: there is a \
                     transition",
                    false,
                    tsa_menu(&["@", "1"], &[&[], &["a", "b"]], &[0, 12]),
                    t.pick(2, 3),
                    vec![("@".into(), vec![]), ("1".into(), vec![]), ("z".into(), vec![])],
                    if t == Tier::Quick { costs } else { vec![2] },
                    2,
                ),
                names(t),
                large(t),
                pushdowns(t),
                edits("fsa-edits", true, t),
                edits("tsa-edits", false, t),
                lines(t),
                parts(t),
            ]
        },
    }
}
