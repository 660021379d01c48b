//! The command line programs, run as processes, against the library.

use crate::c24_cfg;
use crate::c25_mcfg;
use crate::c30_chomsky;
use log_domain::LogDomain;
use mc_common::gram::{Rule, S};
use mc_common::{with_hash_seed, Check, Obs, Suite, Tier, Verdict};
use rustomata::approximation::equivalence_classes::EquivalenceRelation;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::push_down_automaton::{PushDownAutomaton, PushState};
use rustomata::automata::tree_stack_automaton::{to_abstract_syntax_tree, PosState, TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::grammars::cfg::CFG;
use rustomata::grammars::lcfrs::csparsing::{CSRepresentation, DebugResult};
use rustomata::grammars::lcfrs::from_discodop::DiscoDopGrammar;
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::negra::{meets_negra_criteria, noparse, to_negra, DumpMode};
use rustomata::grammars::pmcfg::{PMCFGRule, PMCFG};
use rustomata::recognisable::{Item, Recognisable};
use rustomata::util::tree::GornTree;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, Once};
use std::time::{Duration, Instant};

type W = LogDomain<f64>;

// ---------------------------------------------------------------------------------------------
// Processes

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

static RUNNING: Mutex<BTreeMap<u32, Instant>> = Mutex::new(BTreeMap::new());

/// Ends processes that take longer than their limit.
fn watch() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_millis(200));
            for (pid, end) in RUNNING.lock().unwrap().iter() {
                if Instant::now() > *end {
                    unsafe { kill(*pid as i32, 9) };
                }
            }
        });
    });
}

struct Output {
    ok: bool,
    out: Vec<u8>,
    err: String,
}

impl Output {
    fn text(&self) -> String {
        String::from_utf8_lossy(&self.out).into_owned()
    }
}

fn program() -> PathBuf {
    PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "build/target".into())).join("release/rustomata")
}

fn rustomata(args: &[&str], input: &[u8], obs: &mut Obs) -> Result<Output, String> {
    watch();
    let shown = || format!("rustomata {}", args.join(" "));
    let mut child = Command::new(program())
        .args(args)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("{}: {}", shown(), e))?;
    let pid = child.id();
    RUNNING.lock().unwrap().insert(pid, Instant::now() + Duration::from_secs(30));
    // what is written to the standard error is little
    let mut stdin = child.stdin.take().unwrap();
    let input = input.to_vec();
    let feeder = if input.len() > 4096 {
        Some(std::thread::spawn(move || {
            let _ = stdin.write_all(&input);
        }))
    } else {
        let _ = stdin.write_all(&input);
        drop(stdin);
        None
    };
    let mut out = Vec::new();
    let mut err = Vec::new();
    let mut stderr = child.stderr.take().unwrap();
    let read = child.stdout.take().unwrap().read_to_end(&mut out);
    let _ = stderr.read_to_end(&mut err);
    if let Some(f) = feeder {
        let _ = f.join();
    }
    let mut running = RUNNING.lock().unwrap();
    let status = child.wait();
    running.remove(&pid);
    drop(running);
    read.map_err(|e| format!("{}: {}", shown(), e))?;
    let status = status.map_err(|e| format!("{}: {}", shown(), e))?;
    obs.step();
    if status.code().is_none() {
        return Err(format!("{}: ended by {:?}", shown(), status));
    }
    Ok(Output { ok: status.success(), out, err: String::from_utf8_lossy(&err).into_owned() })
}

/// The output of a run that has to end well.
fn good(args: &[&str], input: &[u8], obs: &mut Obs) -> Result<Output, String> {
    let o = rustomata(args, input, obs)?;
    if !o.ok {
        return Err(format!("rustomata {} fails: {}", args.join(" "), o.err.lines().take(4).collect::<Vec<_>>().join(" / ")));
    }
    Ok(o)
}

/// A folder of files that is removed afterwards.
struct Folder(PathBuf);

impl Folder {
    fn new() -> Folder {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("cannot make a scratch folder");
        Folder(p)
    }
    fn write(&self, name: &str, text: impl AsRef<[u8]>) -> String {
        let p = self.0.join(name);
        std::fs::write(&p, text).expect("cannot write to the scratch folder");
        p.to_str().unwrap().to_string()
    }
    fn path(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}

impl Drop for Folder {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ---------------------------------------------------------------------------------------------
// Comparison

/// What is printed for one sentence: all there is to print, best first, of which `k` are printed.
#[derive(Clone)]
struct Block {
    head: String,
    entries: Vec<(f64, String)>,
    k: usize,
    tail: String,
    /// all of the best `k`, in order; otherwise any of them
    exact: bool,
}

/// Are two logarithms of weights the same but for rounding?
fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() < 1e-9
}

/// The numbers of entries printed for each sentence.
fn read_blocks(text: &str, blocks: &[Block]) -> Result<Vec<usize>, String> {
    let mut rest = text;
    let mut counts = Vec::new();
    for (i, b) in blocks.iter().enumerate() {
        let here = |what: &str, rest: &str| format!("sentence {}: {}, the output goes on with {:?}", i + 1, what, rest.chars().take(150).collect::<String>());
        rest = rest.strip_prefix(&b.head[..]).ok_or_else(|| here(&format!("expected {:?}", b.head), rest))?;
        let mut used = vec![false; b.entries.len()];
        let mut n = 0;
        // the longest entry that fits, of several the one with the right weight; an empty one is never printed
        while let Some(e) = (0..b.entries.len()).filter(|e| !used[*e] && !b.entries[*e].1.is_empty() && rest.starts_with(&b.entries[*e].1)).max_by_key(|e| (b.entries[*e].1.len(), close(b.entries[*e].0, b.entries[n].0))) {
            if n == b.k {
                return Err(here(&format!("more than {} parses", b.k), rest));
            }
            if b.exact && !close(b.entries[e].0, b.entries[n].0) {
                return Err(here(&format!("parse {} should have weight {:?}, not {:?}", n + 1, b.entries[n].0, b.entries[e].0), rest));
            }
            used[e] = true;
            rest = &rest[b.entries[e].1.len()..];
            n += 1;
        }
        if b.exact && n != b.k.min(b.entries.len()) {
            return Err(here(&format!("{} parses instead of {} of {}", n, b.k.min(b.entries.len()), b.entries.len()), rest));
        }
        rest = rest.strip_prefix(&b.tail[..]).ok_or_else(|| here(&format!("after {} parses, expected {:?}", n, b.tail), rest))?;
        counts.push(n);
    }
    if !rest.is_empty() {
        return Err(format!("after the last sentence: {:?}", rest.chars().take(150).collect::<String>()));
    }
    Ok(counts)
}

/// The numbers with a decimal point are rounded, since sums depend on the order of hash maps.
fn rounded(s: &str) -> String {
    let mut out = String::new();
    let mut number = String::new();
    for c in s.chars().chain(['\n']) {
        if c.is_ascii_digit() || c == '.' && !number.is_empty() && !number.contains('.') || c == 'e' && number.contains('.') || c == '-' && number.ends_with('e') {
            number.push(c);
        } else {
            out += &match number.parse::<f64>() {
                Ok(x) if number.contains('.') => format!("{:.8e}", x),
                _ => number.clone(),
            };
            number.clear();
            out.push(c);
        }
    }
    out.pop();
    out
}

/// The answer of `f`, if it does not depend on the order of hash maps.
fn settled<R: Send + PartialEq>(f: impl Fn() -> R + Sync) -> Option<R> {
    let first = with_hash_seed(0, &f);
    (1..4).all(|s| with_hash_seed(s, &f) == first).then_some(first)
}

/// What `f` says, or one of many orders of hash maps with which it is content: the programs have
/// an order of their own.
fn content<R: Send>(f: impl Fn() -> Result<R, String> + Sync) -> Result<R, String> {
    let first = with_hash_seed(0, &f);
    if first.is_ok() {
        return first;
    }
    (4..1000).map(|s| with_hash_seed(s, &f)).find(|r| r.is_ok()).unwrap_or(first)
}

// ---------------------------------------------------------------------------------------------
// Grammars and sentences

const WEIGHTS: [f64; 8] = [0.5, 0.25, 0.7, 0.3, 0.9, 0.6, 0.125, 0.45];

fn name(n: u8) -> String {
    if n == 0 {
        "S".into()
    } else {
        ((b'A' + n - 1) as char).to_string()
    }
}

fn letter(t: u8) -> String {
    ((b'a' + t) as char).to_string()
}

fn mcfg_text(rules: &[Rule], one: bool) -> String {
    let mut s = format!("initial: [{}]\n\n", name(0));
    for (i, r) in rules.iter().enumerate() {
        let comps: Vec<String> = r
            .comp
            .iter()
            .map(|c| {
                let syms: Vec<String> = c
                    .iter()
                    .map(|s| match s {
                        S::T(t) => format!("T {}", letter(*t)),
                        S::V(i, j) => format!("Var {} {}", i, j),
                    })
                    .collect();
                format!("[{}]", syms.join(", "))
            })
            .collect();
        let tail: Vec<String> = r.tail.iter().map(|n| name(*n)).collect();
        s += &format!("{} → [{}] ({})", name(r.head), comps.join(", "), tail.join(", "));
        s += &if one { "\n".to_string() } else { format!("  # {}\n", WEIGHTS[i % WEIGHTS.len()]) };
    }
    s
}

fn cfg_text(rules: &[Rule], one: bool) -> String {
    let mut s = format!("initial: [{}]\n\n", name(0));
    for (i, r) in rules.iter().enumerate() {
        let syms: Vec<String> = r.comp[0]
            .iter()
            .map(|s| match s {
                S::T(t) => format!("T {}", letter(*t)),
                S::V(i, _) => format!("Nt {}", name(r.tail[*i])),
            })
            .collect();
        s += &format!("{} → [{}]", name(r.head), syms.join(", "));
        s += &if one { "\n".to_string() } else { format!("  # {}\n", WEIGHTS[i % WEIGHTS.len()]) };
    }
    s
}

/// All words of up to some symbols over {a, b}, one per line, with odd spaces, an unknown
/// symbol, empty lines; the last line does not end.
fn corpus(max: u32) -> (String, Vec<Vec<String>>) {
    let mut text = String::new();
    let mut sentences = Vec::new();
    for (i, w) in c24_cfg::words_of(max).into_iter().enumerate() {
        let w: Vec<String> = w.into_iter().map(|t| if t > 1 { "unknown".to_string() } else { letter(t) }).collect();
        text += &match i % 4 {
            0 => w.join(" ") + "\n",
            1 => format!("  {} \n", w.join("   ")),
            2 => w.join("\t") + "\r\n",
            _ => w.join(" ") + "\n",
        };
        sentences.push(w);
    }
    text += "\n \na b";
    sentences.extend([vec![], vec![], vec!["a".into(), "b".into()]]);
    (text, sentences)
}

/// The parses of a recogniser, at most 60, best first.
fn entries<I>(items: impl Iterator<Item = I>, f: impl Fn(&I) -> (f64, String)) -> Vec<(f64, String)> {
    let mut v: Vec<(f64, String)> = items.take(60).map(|i| f(&i)).collect();
    v.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    v
}

struct Numbers {
    n: Option<usize>,
    beam: Option<usize>,
    short: bool,
}

impl Numbers {
    fn args(&self) -> Vec<String> {
        let mut v = Vec::new();
        if let Some(n) = self.n {
            v.extend([if self.short { "-n" } else { "--number" }.to_string(), n.to_string()]);
        }
        if let Some(b) = self.beam {
            v.extend([if self.short { "-b" } else { "--beam" }.to_string(), b.to_string()]);
        }
        v
    }
    fn all(full: bool) -> Vec<Numbers> {
        let mut v: Vec<Numbers> = [None, Some(0), Some(2), Some(60)].into_iter().map(|n| Numbers { n, beam: None, short: n == Some(2) }).collect();
        v.extend([(Some(60), 1), (None, 2)].into_iter().map(|(n, b)| Numbers { n, beam: Some(b), short: b == 1 }));
        if full {
            for n in [None, Some(1), Some(3)] {
                for b in [0, 1, 2, 3, 1000] {
                    v.push(Numbers { n, beam: Some(b), short: b % 2 == 0 });
                }
            }
        }
        v
    }
}

/// Compares what is printed with what `beamed` gives for the beam, if that does not depend on
/// chance, and with all the parses.
fn check_printed(
    args: &[&str],
    text: &str,
    o: &Numbers,
    mut blocks: Vec<Block>,
    beamed: &(dyn Fn(usize) -> Vec<Vec<(f64, String)>> + Sync),
    obs: &mut Obs,
) -> Verdict {
    let fail = |e| format!("rustomata {}: {}", args.join(" "), e);
    let n = o.n.unwrap_or(1);
    let settled_beam = o.beam.map_or(false, |b| settled(|| beamed(b)).is_some());
    for b in &mut blocks {
        b.k = n;
        b.exact = o.beam.is_none() || settled_beam;
    }
    let counts = if settled_beam {
        content(|| {
            let mut blocks = blocks.clone();
            for (block, entries) in blocks.iter_mut().zip(beamed(o.beam.unwrap())) {
                block.entries = entries;
            }
            read_blocks(text, &blocks)
        })
    } else {
        read_blocks(text, &blocks)
    }
    .map_err(fail)?;
    obs.trace();
    obs.outcome(&counts);
    if counts.iter().any(|c| *c > 1) {
        obs.nontrivial();
        obs.note(|| format!("rustomata {}: {:?} parses", args.join(" "), counts));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// mcfg, tsa

fn mcfg(rules: &[Rule], one: bool, full: bool, obs: &mut Obs) -> Verdict {
    if !c25_mcfg::finite(rules) {
        return Ok(());
    }
    obs.state(&(rules, one));
    mcfg_grammar(&mcfg_text(rules, one), c25_mcfg::nonrecursive(rules), corpus(2), full, obs)
}

/// An automaton as text, with numbers for the states, since only few names can be read.
fn numbered(a: &TreeStackAutomaton<PosState<PMCFGRule<String, String, W>>, String, W>) -> String {
    let mut states: Vec<PosState<PMCFGRule<String, String, W>>> = vec![PosState::Initial];
    let mut n = |s: &PosState<PMCFGRule<String, String, W>>| match states.iter().position(|t| t == s) {
        Some(i) => i,
        None => {
            states.push(s.clone());
            states.len() - 1
        }
    };
    let mut text = format!("initial: {}\n\n", 0);
    for t in a.list_transitions() {
        let i = match &t.instruction {
            TreeStackInstruction::Up { n: m, current_val, old_val, new_val } => format!("Up {} {} {} {}", m, n(current_val), n(old_val), n(new_val)),
            TreeStackInstruction::Push { n: m, current_val, new_val } => format!("Push {} {} {}", m, n(current_val), n(new_val)),
            TreeStackInstruction::Down { current_val, old_val, new_val } => format!("Down {} {} {}", n(current_val), n(old_val), n(new_val)),
        };
        text += &format!("Transition {:?} ({})  # {}\n", t.word, i, t.weight);
    }
    text
}

fn mcfg_grammar(text: &str, nonrecursive: bool, (corpus, sentences): (String, Vec<Vec<String>>), full: bool, obs: &mut Obs) -> Verdict {
    let folder = Folder::new();
    let file = folder.write("grammar", text);
    let g: PMCFG<String, String, W> = text.parse().map_err(|e| format!("{}", e))?;
    let a = TreeStackAutomaton::from(g);
    // trees are only printed if terminals are in rules of their own, below others
    let separated = sentences.iter().all(|s| {
        a.recognise(s.clone()).take(60).all(|i| {
            let t = to_abstract_syntax_tree(i.0.storage.to_tree());
            meets_negra_criteria(&t) && (t.len() > 1 || s.is_empty())
        })
    });
    for negra in [false, true] {
        if negra && !separated {
            continue;
        }
        let tell = |i: usize, item: &Item<TreeStack<PosState<PMCFGRule<String, String, W>>>, TreeStackInstruction<PosState<PMCFGRule<String, String, W>>>, String, W>| {
            let conf = &item.0;
            let s = if negra {
                to_negra(&to_abstract_syntax_tree(conf.storage.to_tree()), i + 1, DumpMode::Default)
            } else {
                format!("{}", conf)
            };
            (conf.weight.ln(), s + "\n")
        };
        let blocks = || -> Vec<Block> {
            sentences
                .iter()
                .enumerate()
                .map(|(i, s)| Block { head: String::new(), entries: entries(a.recognise(s.clone()), |p| tell(i, p)), k: 1, tail: "\n".into(), exact: true })
                .collect()
        };
        for o in Numbers::all(full) {
            let more = o.args();
            let mut args = vec!["mcfg", "parse", &file[..]];
            args.extend(more.iter().map(|s| &s[..]));
            if negra {
                args.push("--negra");
            }
            let out = good(&args, corpus.as_bytes(), obs)?;
            let beamed = |b: usize| -> Vec<Vec<(f64, String)>> {
                let a = TreeStackAutomaton::from(text.parse::<PMCFG<String, String, W>>().unwrap());
                sentences.iter().enumerate().map(|(i, s)| entries(a.recognise_beam_search(b, s.clone()), |p| tell(i, p))).collect()
            };
            check_printed(&args, &out.text(), &o, blocks(), &beamed, obs)?;
        }
    }
    // the automaton as a file for the next program
    let printed = good(&["mcfg", "automaton", &file], b"", obs)?.text();
    let lines = |s: &str| -> Vec<String> {
        let mut v: Vec<String> = s.lines().map(rounded).collect();
        v.sort();
        v
    };
    if lines(&printed) != lines(&format!("{}\n", a)) {
        return Err(format!("rustomata mcfg automaton prints {:?}", printed));
    }
    // the same automaton with numbers as states
    let printed = numbered(&a);
    let afile = folder.write("automaton", &printed);
    let b: TreeStackAutomaton<String, String, W> = printed.parse().map_err(|e| format!("the printed automaton cannot be read: {}", e))?;
    for o in Numbers::all(full) {
        for fine in [false, true] {
            if fine && !nonrecursive {
                continue;
            }
            let more = o.args();
            let mut args = vec!["tsa", "recognise", &afile[..]];
            args.extend(more.iter().map(|s| &s[..]));
            if fine {
                args.extend([if o.short { "-c" } else { "--coarse-to-fine" }, "tts"]);
            }
            let out = rustomata(&args, corpus.as_bytes(), obs)?;
            if !out.ok && fine && o.beam.is_some() {
                // there is no coarse-to-fine recognition with a beam
                continue;
            }
            if !out.ok {
                return Err(format!("rustomata {} fails: {}", args.join(" "), out.err));
            }
            let blocks: Vec<Block> = sentences
                .iter()
                .map(|s| Block {
                    head: format!("{:?}:\n", s),
                    entries: entries(b.recognise(s.clone()), |r| (r.0.weight.ln(), format!("  {:?}\n", r.1))),
                    k: 1,
                    tail: "\n".into(),
                    exact: true,
                })
                .collect();
            // the reference for the parses is the grammar
            for (s, block) in sentences.iter().zip(&blocks) {
                let w = |v: Vec<(f64, String)>| -> Vec<f64> { v.iter().map(|e| e.0).collect() };
                let direct = w(entries(a.recognise(s.clone()), |r| (r.0.weight.ln(), String::new())));
                let stored: Vec<f64> = block.entries.iter().map(|e| e.0).collect();
                if direct.len() != stored.len() || !direct.iter().zip(&stored).all(|(x, y)| close(*x, *y)) {
                    return Err(format!("{:?}: {:?} are the weights with the grammar, {:?} with the stored automaton", s, direct, stored));
                }
            }
            let beamed = |k: usize| -> Vec<Vec<(f64, String)>> {
                let b: TreeStackAutomaton<String, String, W> = printed.parse().unwrap();
                sentences.iter().map(|s| entries(b.recognise_beam_search(k, s.clone()), |r| (r.0.weight.ln(), format!("  {:?}\n", r.1)))).collect()
            };
            if fine {
                // any order; all if there are fewer than asked for
                let mut blocks = blocks;
                for b in &mut blocks {
                    b.k = o.n.unwrap_or(1);
                    b.exact = false;
                }
                let counts = read_blocks(&out.text(), &blocks).map_err(|e| format!("rustomata {}: {}", args.join(" "), e))?;
                for ((c, b), s) in counts.iter().zip(&blocks).zip(&sentences) {
                    if o.beam.is_none() && *c != b.k.min(b.entries.len()) {
                        return Err(format!("rustomata {}: {:?} has {} runs, {} of them are asked for, {} are printed", args.join(" "), s, b.entries.len(), b.k, c));
                    }
                }
                obs.trace();
            } else {
                check_printed(&args, &out.text(), &o, blocks, &beamed, obs)?;
            }
        }
    }
    // as a pushdown automaton
    if nonrecursive {
        let tts = TTSElement::new();
        let (p, _) = tts.approximate_automaton(&a);
        let out = good(&["approximation", "tts", "automaton", &file], b"", obs)?.text();
        if lines(&out) != lines(&format!("{}\n", p)) {
            return Err(format!("rustomata approximation tts automaton prints {:?}", out));
        }
        let out = good(&["approximation", "tts", "parse", &file], corpus.as_bytes(), obs)?.text();
        approximate(&out, &corpus, |s| p.recognise(s).map(|i| (i.0.weight.ln(), format!("{:?}", Some(i)))).take(60).collect(), obs).map_err(|e| format!("approximation tts parse: {}", e))?;
    }
    Ok(())
}

/// One line per sentence: one of the best parses, and the sentence as it is.
fn approximate(out: &str, corpus: &str, parses: impl Fn(Vec<String>) -> Vec<(f64, String)>, obs: &mut Obs) -> Verdict {
    let lines: Vec<&str> = corpus.lines().collect();
    let printed: Vec<&str> = out.split_terminator('\n').collect();
    if lines.len() != printed.len() {
        return Err(format!("{} sentences, {} lines", lines.len(), printed.len()));
    }
    for (l, p) in lines.iter().zip(printed) {
        let all = parses(l.split_whitespace().map(|s| s.to_string()).collect());
        let best: Vec<&String> = all.iter().filter(|e| close(e.0, all[0].0)).map(|e| &e.1).collect();
        let ok = match best[..] {
            [] => p == format!("None: {}", l),
            _ => best.iter().any(|b| p == format!("{}: {}", b, l) || rounded(p) == rounded(&format!("{}: {}", b, l))),
        };
        if !ok {
            return Err(format!("{:?}: {} is printed, there are {} parses", l, p, all.len()));
        }
        obs.trace();
        obs.outcome(&best.len());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// cfg

fn cfg(rules: &[Rule], one: bool, full: bool, obs: &mut Obs) -> Verdict {
    if !c24_cfg::finite(rules) {
        return Ok(());
    }
    let text = cfg_text(rules, one);
    obs.state(&text);
    let classes: Vec<(&str, [u8; 3])> = vec![("S [S]\nN [A, B]\nR *\n", [0, 1, 1]), ("R *", [0, 0, 0]), ("one [S, A]\nrest *\n", [0, 0, 2])];
    let classes: Vec<&str> = classes
        .into_iter()
        .filter(|(_, h)| {
            let mapped: Vec<Rule> = rules.iter().map(|r| Rule { head: h[r.head as usize], tail: r.tail.iter().map(|n| h[*n as usize]).collect(), comp: r.comp.clone() }).collect();
            c24_cfg::finite(&mapped)
        })
        .map(|c| c.0)
        .collect();
    cfg_grammar(&text, corpus(2), &classes, full, obs)
}

fn cfg_grammar(text: &str, (corpus, sentences): (String, Vec<Vec<String>>), classes: &[&str], full: bool, obs: &mut Obs) -> Verdict {
    let folder = Folder::new();
    let file = folder.write("grammar", text);
    let g: CFG<String, String, W> = text.parse().map_err(|e| format!("{}", e))?;
    let a = PushDownAutomaton::from(g);
    for o in Numbers::all(full) {
        let more = o.args();
        let mut args = vec!["cfg", "parse", &file[..]];
        args.extend(more.iter().map(|s| &s[..]));
        let out = good(&args, corpus.as_bytes(), obs)?;
        // as many of the same parse as there are derivations: the runs are not printed
        let blocks = sentences
            .iter()
            .map(|s| Block { head: String::new(), entries: entries(a.recognise(s.clone()), |p| (p.0.weight.ln(), format!("{:?}\n", p.0))), k: 1, tail: "\n".into(), exact: true })
            .collect();
        let beamed = |b: usize| -> Vec<Vec<(f64, String)>> {
            let a = PushDownAutomaton::from(text.parse::<CFG<String, String, W>>().unwrap());
            sentences.iter().map(|s| entries(a.recognise_beam_search(b, s.clone()), |p| (p.0.weight.ln(), format!("{:?}\n", p.0)))).collect()
        };
        check_printed(&args, &out.text(), &o, blocks, &beamed, obs)?;
    }
    let lines = |s: &str| -> Vec<String> {
        let mut v: Vec<String> = s.lines().map(rounded).collect();
        v.sort();
        v
    };
    let printed = good(&["cfg", "automaton", &file], b"", obs)?.text();
    if lines(&printed) != lines(&format!("{}\n", a)) {
        return Err(format!("rustomata cfg automaton prints {:?}", printed));
    }
    for c in classes {
        let cfile = folder.write("classes", c);
        let e: EquivalenceRelation<String, String> = c.parse().map_err(|_| format!("cannot read {:?}", c))?;
        let f = |ps: &PushState<String, String>| ps.map(|nt| e.project(nt));
        let rlb = RlbElement::new(&f);
        let (p, _) = rlb.approximate_automaton(&a);
        let out = good(&["approximation", "relabel", "automaton", &cfile, &file], b"", obs)?.text();
        if lines(&out) != lines(&format!("{}\n", p)) {
            return Err(format!("rustomata approximation relabel automaton prints {:?} for {:?}", out, c));
        }
        let out = good(&["approximation", "relabel", "parse", &cfile, &file], corpus.as_bytes(), obs)?.text();
        approximate(&out, &corpus, |s| p.recognise(s).map(|i| (i.0.weight.ln(), format!("{:?}", Some(i)))).take(60).collect(), obs)
            .map_err(|e| format!("approximation relabel parse with {:?}: {}", c, e))?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// csparsing

type Cs = CSRepresentation<String, String, W>;
type Tree = GornTree<PMCFGRule<String, String, W>>;

struct Options {
    k: Option<usize>,
    beam: Option<usize>,
    threshold: Option<&'static str>,
    candidates: Option<usize>,
    lines: bool,
    pos: bool,
    debug: bool,
    fallback: bool,
    short: bool,
}

impl Options {
    fn args(&self) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        let mut valued = |short: &str, long: &str, value: Option<String>| {
            if let Some(x) = value {
                if self.short || long.is_empty() {
                    v.extend([short.to_string(), x]);
                } else {
                    v.push(format!("{}={}", long, x));
                }
            }
        };
        valued("-k", "", self.k.map(|k| k.to_string()));
        valued("-b", "--beam", self.beam.map(|k| k.to_string()));
        valued("-t", "--threshold", self.threshold.map(|k| k.to_string()));
        valued("-c", "--candidates", self.candidates.map(|k| k.to_string()));
        for (on, short, long) in [(self.lines, "-l", "--with-lines"), (self.pos, "-p", "--with-pos"), (self.debug, "-d", "--debug"), (self.fallback, "-f", "--with-fallback")] {
            if on {
                v.push(if self.short { short } else { long }.to_string());
            }
        }
        v
    }
    fn all(full: bool) -> Vec<Options> {
        let none = || Options { k: None, beam: None, threshold: None, candidates: None, lines: false, pos: false, debug: false, fallback: false, short: false };
        let mut v = vec![
            none(),
            Options { k: Some(60), ..none() },
            Options { k: Some(2), lines: true, fallback: true, short: true, ..none() },
            Options { k: Some(60), beam: Some(1), pos: true, ..none() },
            Options { beam: Some(1), fallback: true, short: true, ..none() },
            Options { k: Some(60), threshold: Some("0.6"), pos: true, lines: true, fallback: true, ..none() },
            Options { k: Some(60), candidates: Some(1), fallback: true, short: true, ..none() },
            Options { debug: true, pos: true, ..none() },
            Options { debug: true, lines: true, beam: Some(1), short: true, ..none() },
        ];
        if full {
            for bits in 0..16 {
                for (k, beam, threshold, candidates) in [(None, None, None, None), (Some(3), Some(2), None, None), (Some(2), None, Some("0.1"), None), (Some(60), None, Some("0.01"), Some(2)), (None, Some(3), Some("0.0001"), Some(0))] {
                    v.push(Options { k, beam, threshold, candidates, lines: bits & 1 != 0, pos: bits & 2 != 0, debug: bits & 4 != 0, fallback: bits & 8 != 0, short: bits % 3 == 0 });
                }
            }
        }
        v
    }
}

/// Weight and tree of the parses, and the tree to fall back to.
fn cs_answers(cs: &Cs, words: &[String], o: &Options) -> (Vec<Tree>, Option<Tree>, (&'static str, Vec<Tree>)) {
    let mut g = cs.build_generator();
    if let Some(b) = o.beam {
        g.set_beam(b);
    }
    if let Some(t) = o.threshold {
        g.set_delta(t.parse().unwrap());
    }
    if let Some(c) = o.candidates {
        g.set_candidates(c);
    }
    let (it, fallback) = g.with_fallback(words);
    let trees = it.take(60).map(|t| t.cloned()).collect();
    let shown = match g.debug(words).3 {
        DebugResult::Parse(t, _) => ("parse", vec![t]),
        DebugResult::Fallback(t, _) => ("fallback", vec![t]),
        DebugResult::Noparse => ("noparse", vec![]),
    };
    (trees, fallback, shown)
}

fn weight(t: &Tree) -> f64 {
    t.clone().into_iter().map(|(_, r)| r.weight.ln()).sum()
}

/// Runs the parser on a stored representation and compares with the library.
fn cs_parse(file: &str, grammar: &(dyn Fn() -> Cs + Sync), sentences: &[Vec<String>], o: &Options, obs: &mut Obs) -> Verdict {
    let mut input = String::new();
    let id = |i: usize| if o.lines { 7 * i + 3 } else { i };
    // the words differ from the symbols that are parsed if those are given
    let shown: Vec<Vec<String>> = sentences.iter().map(|s| s.iter().enumerate().map(|(i, w)| if i % 2 == 0 { format!("word/{}", w.len() + i) } else { format!("w{}", i) }).collect()).collect();
    for (i, (s, w)) in sentences.iter().zip(&shown).enumerate() {
        let mut tokens: Vec<String> = if o.pos { s.iter().zip(w).map(|(s, w)| format!("{}/{}", w, s)).collect() } else { s.clone() };
        if o.lines {
            tokens.insert(0, id(i).to_string());
        }
        input += &tokens.join(if i % 3 == 1 { "  " } else { " " });
        input += if i % 5 == 4 { " \r\n" } else { "\n" };
    }
    let more = o.args();
    let mut args = vec!["csparsing", "parse", file];
    args.extend(more.iter().map(|s| &s[..]));
    let out = good(&args, input.as_bytes(), obs)?;
    let limited = o.beam.is_some() || o.threshold.is_some() || o.candidates.is_some();
    let all = || -> Vec<_> {
        let cs = grammar();
        sentences.iter().map(|s| cs_answers(&cs, s, o)).collect()
    };
    if limited && settled(all).is_none() {
        return Ok(());
    }
    let compare = || -> Result<(Vec<usize>, Vec<&'static str>), String> {
        let cs = grammar();
        let mut blocks = Vec::new();
        let mut kinds = Vec::new();
        for (i, (s, w)) in sentences.iter().zip(&shown).enumerate() {
            let mode = || if o.pos { DumpMode::FromPos(w.clone()) } else { DumpMode::Default };
            let negra = |t: &Tree| to_negra(t, id(i), mode()) + "\n";
            let (trees, fallback, (kind, debugged)) = cs_answers(&cs, s, o);
            kinds.push(if o.debug { kind } else if !trees.is_empty() { "parse" } else if fallback.is_some() { "fallback" } else { "noparse" });
            let (entries, k) = if o.debug {
                // the best parse, or the one to fall back to
                let best = trees.first().map(weight);
                let mut e: Vec<(f64, String)> = trees.iter().chain(&debugged).filter(|t| best.map_or(true, |b| close(b, weight(t)))).map(|t| (weight(t), negra(t))).collect();
                if debugged.is_empty() {
                    e = vec![(0.0, noparse(s, id(i), mode()) + "\n")];
                }
                e.iter_mut().for_each(|e| e.0 = 0.0);
                (e, 1)
            } else if trees.is_empty() {
                let t = match fallback {
                    Some(t) if o.fallback => negra(&t),
                    _ => noparse(s, id(i), mode()) + "\n",
                };
                (vec![(0.0, t)], 1)
            } else {
                let mut e: Vec<(f64, String)> = trees.iter().map(|t| (weight(t), negra(t))).collect();
                e.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                (e, o.k.unwrap_or(1))
            };
            blocks.push(Block { head: String::new(), entries, k, tail: String::new(), exact: true });
        }
        let counts = read_blocks(&out.text(), &blocks).map_err(|e| format!("rustomata {}: {}", args.join(" "), e))?;
        if o.debug {
            let said: Vec<Vec<&str>> = out.err.lines().map(|l| l.split_whitespace().collect()).collect();
            let kind = |l: &Vec<&str>| l.get(l.len().saturating_sub(2)).map(|s| s.to_string());
            if said.len() != kinds.len() || !said.iter().zip(&kinds).all(|(l, k)| kind(l).as_deref() == Some(k)) {
                return Err(format!("rustomata {}: {:?} are reported, {:?} expected", args.join(" "), out.err, kinds));
            }
        }
        Ok((counts, kinds))
    };
    let (counts, kinds) = if limited { content(compare) } else { compare() }?;
    obs.trace();
    obs.outcome(&(counts.clone(), &kinds));
    if counts.iter().any(|c| *c > 1) || kinds.contains(&"fallback") {
        obs.nontrivial();
        obs.note(|| format!("rustomata {}: {:?}, {:?} trees", args.join(" "), kinds, counts));
    }
    Ok(())
}

fn zipped(text: &str) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    e.write_all(text.as_bytes()).unwrap();
    e.finish().unwrap()
}

fn extract(folder: &Folder, name: &str, args: &[&str], input: &[u8], obs: &mut Obs) -> Result<String, String> {
    let mut all = vec!["csparsing", "extract"];
    all.extend(args);
    let out = good(&all, input, obs)?;
    Ok(folder.write(name, out.out))
}

fn cs_sentences() -> Vec<Vec<String>> {
    let mut v = corpus(3).1;
    v.push(vec!["a".into(), "b".into(), "a".into(), "b".into()]);
    v
}

/// Has the initial nonterminal rules with terminals?  Trees of one word cannot be printed.
fn flat(rules: &[Rule]) -> bool {
    rules.iter().any(|r| r.head == 0 && r.tail.is_empty())
}

fn csparsing(rules: &[Rule], full: bool, obs: &mut Obs) -> Verdict {
    if flat(rules) {
        return Ok(());
    }
    obs.state(&rules);
    csparsing_grammar(&mcfg_text(rules, false), &cs_sentences(), full, obs)
}

fn csparsing_grammar(text: &str, sentences: &[Vec<String>], full: bool, obs: &mut Obs) -> Verdict {
    let read = |len: usize| -> Cs { Cs::new(text.parse::<Lcfrs<String, String, W>>().map_err(|_| ()).unwrap(), len) };
    let folder = Folder::new();
    let file = folder.write("grammar", text);
    let zip = folder.write("zipped", zipped(text));
    let cs = extract(&folder, "0", &[&file], b"", obs)?;
    let options = Options::all(full);
    // one run is enough if there is nothing to print
    if sentences.iter().all(|s| cs_answers(&read(0), s, &options[0]).0.is_empty()) {
        return cs_parse(&cs, &|| read(0), sentences, &options[8], obs);
    }
    for o in &options {
        cs_parse(&cs, &|| read(0), sentences, o, obs)?;
    }
    let ways: [(&[&str], Vec<u8>, usize); 6] = [
        (&[], text.as_bytes().to_vec(), 0),
        (&["-z"], zipped(text), 0),
        (&["--zipped", "-s", "2", &zip], vec![], 2),
        (&["--unzipped", "--sxlen", "5", &file], vec![], 5),
        (&["--sxlen=255", &file], vec![], 255),
        (&["-s", "1"], text.as_bytes().to_vec(), 1),
    ];
    for (i, (args, input, len)) in ways.iter().enumerate() {
        if *len > 5 && !full {
            continue;
        }
        let cs = extract(&folder, "other", args, input, obs)?;
        let o = &Options::all(false)[[1, 2, 1, 5, 1, 1][i]];
        cs_parse(&cs, &|| read(*len), sentences, o, obs).map_err(|e| format!("extracted with {:?}: {}", args, e))?;
    }
    Ok(())
}

/// The grammar in disco-dop's format and its lexicon, if it can be written like that.
fn disco(rules: &[Rule]) -> Option<(String, String)> {
    let nt = |n: &u8| if *n == 0 { "ROOT".to_string() } else { name(*n) };
    let mut constituents = Vec::new();
    let mut lexer: BTreeMap<String, String> = BTreeMap::new();
    for (i, r) in rules.iter().enumerate() {
        let count = ["1", "3/2", "5", "2/7"][i % 4];
        if r.tail.is_empty() {
            let [S::T(t)] = r.comp[0][..] else { return None };
            *lexer.entry(letter(t)).or_default() += &format!("\t{} {}", nt(&r.head), count);
        } else {
            if r.tail.len() > 2 || !c25_mcfg::monotone(r) {
                return None;
            }
            let comps: Option<Vec<String>> = r
                .comp
                .iter()
                .map(|c| c.iter().map(|s| if let S::V(i, _) = s { Some(i.to_string()) } else { None }).collect::<Option<String>>())
                .collect();
            let tail: Vec<String> = r.tail.iter().map(nt).collect();
            constituents.push(format!("{}\t{}\t{}\t{}", nt(&r.head), tail.join("\t"), comps?.join(","), count));
        }
    }
    let lexer: Vec<String> = lexer.into_iter().map(|(w, l)| w + &l).collect();
    Some((constituents.join("\n"), lexer.join("\n")))
}

fn discodop(rules: &[Rule], full: bool, obs: &mut Obs) -> Verdict {
    let Some((grammar, lexer)) = disco(rules) else { return Ok(()) };
    if grammar.is_empty() || flat(rules) {
        return Ok(());
    }
    obs.state(&grammar);
    let folder = Folder::new();
    let plain = folder.write("rules", &grammar);
    let zip = folder.write("rules.gz", zipped(&grammar));
    let lex = folder.write("lex", &lexer);
    let lexzip = folder.write("lex.gz", zipped(&lexer));
    let with_lexer = |len: usize| -> Cs {
        let g: DiscoDopGrammar<String, (), W> = grammar.parse().map_err(|_| ()).unwrap();
        Cs::new(g.with_lexer(lexer.parse().map_err(|_| ()).unwrap()), len)
    };
    let without = |len: usize| -> Cs {
        let g: DiscoDopGrammar<String, (), W> = grammar.parse().map_err(|_| ()).unwrap();
        Cs::new(g.with_default_lexer(), len)
    };
    let options = Options::all(false);
    let cs = extract(&folder, "cs", &["--disco", "--lexer", &lexzip, &zip], b"", obs)?;
    for o in if full { Options::all(true) } else { Options::all(false) } {
        cs_parse(&cs, &|| with_lexer(0), &cs_sentences(), &o, obs)?;
    }
    let cs = extract(&folder, "cs", &["-d", "-l", &lex, "--unzipped", "-s", "3", &plain], b"", obs)?;
    cs_parse(&cs, &|| with_lexer(3), &cs_sentences(), &options[1], obs)?;
    let cs = extract(&folder, "cs", &["-d", "-l", &lexzip], &zipped(&grammar), obs)?;
    cs_parse(&cs, &|| with_lexer(0), &cs_sentences(), &options[2], obs)?;
    // the nonterminals that have no rules as terminals
    let terminals: Vec<String> = (0..4u8).filter(|n| rules.iter().any(|r| r.tail.contains(n)) && !rules.iter().any(|r| r.head == *n && !r.tail.is_empty())).map(name).collect();
    if !terminals.is_empty() {
        let sentences: Vec<Vec<String>> = mc_common::enumerate::words(&terminals, 3);
        let cs = extract(&folder, "cs", &["--disco", &zip], b"", obs)?;
        for o in &options {
            cs_parse(&cs, &|| without(0), &sentences, o, obs)?;
        }
        let cs = extract(&folder, "cs", &["--disco", "--unzipped"], grammar.as_bytes(), obs)?;
        cs_parse(&cs, &|| without(0), &sentences, &options[3], obs)?;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// What cannot be answered

/// What is wrong, arguments (files are named by what they contain), standard input.
type Wrong = (&'static str, Vec<&'static str>, &'static [u8]);

const CFG_TEXT: &str = "initial: [S]\nS → [T a, Nt S] # 0.5\nS → [T a] # 0.5\n";
const MCFG_TEXT: &str = "initial: [S]\nS → [[Var 0 0, Var 1 0]] (A, A) # 0.5\nA → [[T a]] () # 0.5\n";
const TSA_TEXT: &str = "initial: 1\nTransition [\"a\"] (Push 0 1 2) # 0.5\n";

fn wrong() -> Vec<Wrong> {
    let mut v: Vec<Wrong> = Vec::new();
    let grammar: [(&str, Vec<&str>); 10] = [
        ("no such file", vec!["{none}"]),
        ("a folder", vec!["{folder}"]),
        ("an empty file", vec!["{empty}"]),
        ("a file that is no grammar", vec!["{text}"]),
        ("a grammar with text after a rule", vec!["{tail}"]),
        ("a grammar of another kind", vec!["{other}"]),
        ("a grammar with a word that is no weight", vec!["{weight}"]),
        ("a file in another encoding", vec!["{latin}"]),
        ("a truncated grammar", vec!["{truncated}"]),
        ("no grammar at all", vec![]),
    ];
    for (what, g) in &grammar {
        for command in [
            vec!["cfg", "parse"],
            vec!["cfg", "automaton"],
            vec!["mcfg", "parse"],
            vec!["mcfg", "automaton"],
            vec!["tsa", "recognise"],
            vec!["approximation", "tts", "parse"],
            vec!["approximation", "tts", "automaton"],
            vec!["approximation", "relabel", "parse", "{classes}"],
            vec!["approximation", "relabel", "automaton", "{classes}"],
            vec!["csparsing", "extract"],
            vec!["csparsing", "extract", "--disco", "--unzipped"],
            vec!["csparsing", "extract", "-z"],
            vec!["csparsing", "parse"],
        ] {
            // the grammar without rules and initial nonterminals is one
            if *what == "an empty file" && !["tsa", "csparsing"].contains(&command[0]) {
                continue;
            }
            // the standard input is the grammar if there is no file
            v.push((what, command.into_iter().chain(g.iter().copied()).collect(), b"a a\n"));
        }
    }
    for option in ["-n=x", "-n=-1", "-n=1.5", "--number=", "-b=x", "-b=-1", "--beam=", "--unknown"] {
        for command in [vec!["cfg", "parse", "{cfg}"], vec!["mcfg", "parse", "{mcfg}"], vec!["tsa", "recognise", "{tsa}"]] {
            v.push(("the option", command.into_iter().chain([option]).collect(), b"a a\n"));
        }
    }
    for option in ["--coarse-to-fine=unknown", "-cunknown", "--coarse-to-fine=tts;unknown"] {
        v.push(("no such strategy", vec!["tsa", "recognise", "{tsa}", option], b"a\n"));
    }
    for option in ["-k=x", "-k=-1", "-b=x", "--beam=-2", "-t=x", "--threshold=-1", "-c=x", "--candidates=1.5", "--unknown"] {
        v.push(("the option", vec!["csparsing", "parse", "{cs}", option], b"a a\n"));
    }
    for option in ["-s=x", "-s=-1", "--sxlen=", "--unknown"] {
        v.push(("the option", vec!["csparsing", "extract", "{mcfg}", option], b""));
    }
    v.push(("zipped and not zipped", vec!["csparsing", "extract", "{mcfg}", "--zipped", "--unzipped"], b""));
    v.push(("not in normal form", vec!["csparsing", "extract", "{mixed}"], b""));
    v.push(("not in normal form", vec!["csparsing", "extract", "{epsilon}"], b""));
    v.push(("no lexicon", vec!["csparsing", "extract", "--disco", "--unzipped", "{disco}", "--lexer", "{none}"], b""));
    v.push(("a lexicon with text after it", vec!["csparsing", "extract", "--disco", "--unzipped", "{disco}", "--lexer", "{text}"], b""));
    v.push(("no number of the sentence", vec!["csparsing", "parse", "{cs}", "-l"], b"a a\n"));
    v.push(("no tags", vec!["csparsing", "parse", "{cs}", "-p"], b"a a\n"));
    v.push(("half a representation", vec!["csparsing", "parse", "{halfcs}"], b"a a\n"));
    v.push(("a representation that is not zipped", vec!["csparsing", "parse", "{rawcs}"], b"a a\n"));
    for c in ["{none}", "{text}", "{latin}"] {
        for command in ["parse", "automaton"] {
            v.push(("no classes", vec!["approximation", "relabel", command, c, "{cfg}"], b"a a\n"));
        }
    }
    // sentences in another encoding
    for command in [
        vec!["cfg", "parse", "{cfg}"],
        vec!["mcfg", "parse", "{mcfg}"],
        vec!["tsa", "recognise", "{tsa}"],
        vec!["approximation", "tts", "parse", "{mcfg}"],
        vec!["approximation", "relabel", "parse", "{classes}", "{cfg}"],
        vec!["csparsing", "parse", "{cs}"],
    ] {
        v.push(("sentences in another encoding", command, b"a a\na \xe4 a\na\n"));
    }
    for command in ["parse", "automaton"] {
        v.push(("an approximation that is not there", vec!["approximation", "ptk", command, "{cfg}", "2"], b"a a\n"));
        v.push(("not implemented", vec!["approximation", "topk", command, "{cfg}", "2"], b"a a\n"));
    }
    v.push(("no such command", vec!["unknown"], b""));
    v
}

fn refuse((what, args, input): &Wrong, obs: &mut Obs) -> Verdict {
    let folder = Folder::new();
    let contents: [(&str, &[u8]); 16] = [
        ("{empty}", b""),
        ("{text}", b"this is no grammar\n"),
        ("{tail}", "initial: [S]\nS → [T a] # 0.5 and more\nS → [[T a]] () # 0.5 and more\n".as_bytes()),
        ("{weight}", "initial: [S]\nS → [T a] # half\nS → [[T a]] () # half\n".as_bytes()),
        ("{latin}", b"initial: [S]\n% \xe4\nS -> [T a]\n"),
        ("{truncated}", "initial: [S]\nS → [T a".as_bytes()),
        ("{cfg}", CFG_TEXT.as_bytes()),
        ("{mcfg}", MCFG_TEXT.as_bytes()),
        ("{tsa}", TSA_TEXT.as_bytes()),
        ("{classes}", b"S [S]\nR *\n"),
        ("{mixed}", "initial: [S]\nS → [[T a, Var 0 0]] (A)\nA → [[T a]] ()\n".as_bytes()),
        ("{epsilon}", "initial: [S]\nS → [[]] ()\n".as_bytes()),
        ("{disco}", b"ROOT\tA\t0\t1\n"),
        ("{grammar_of_cfg}", b""),
        ("{other_cfg}", MCFG_TEXT.as_bytes()),
        ("{other_mcfg}", CFG_TEXT.as_bytes()),
    ];
    let mut files: BTreeMap<&str, String> = BTreeMap::new();
    for (n, c) in contents {
        files.insert(n, folder.write(&n.replace(['{', '}'], ""), c));
    }
    files.insert("{none}", folder.path("no such file"));
    files.insert("{folder}", folder.0.to_str().unwrap().to_string());
    let other = if args.contains(&"cfg") || args.contains(&"relabel") { "{other_cfg}" } else { "{other_mcfg}" };
    let other = files[other].clone();
    files.insert("{other}", other);
    if args.iter().any(|a| a.contains("cs}")) {
        let cs = extract(&folder, "cs", &[&files["{mcfg}"].clone()], b"", obs)?;
        let bytes = std::fs::read(&cs).unwrap();
        files.insert("{halfcs}", folder.write("half", &bytes[..bytes.len() / 2]));
        let mut raw = Vec::new();
        flate2::read::GzDecoder::new(&bytes[..]).read_to_end(&mut raw).unwrap();
        files.insert("{rawcs}", folder.write("raw", &raw));
        files.insert("{cs}", cs);
    }
    let real: Vec<&str> = args.iter().map(|a| files.get(a).map_or(*a, |f| &f[..])).collect();
    let out = rustomata(&real, input, obs)?;
    obs.trace();
    obs.state(&args);
    obs.outcome(&out.err.len());
    obs.nontrivial();
    if out.ok {
        return Err(format!("{}, but the program succeeds, with the output {:?}", what, out.text().chars().take(200).collect::<String>()));
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------

/// The grammars that come with the programs.
fn examples(_: Tier) -> Suite {
    let dir = std::env::var("RUSTOMATA_REPO").unwrap_or_else(|_| "/repo".into()) + "/examples";
    let cases = vec!["example.cfg", "example2.cfg", "example3.cfg", "example.pmcfg", "example2.pmcfg", "example2.pmcfg for csparsing"];
    Suite::over(
        "examples",
        "the example grammars, with their words and some others, all numbers of parses and beams",
        cases,
        move |case, obs| {
            let file = case.split(' ').next().unwrap();
            let Ok(text) = std::fs::read_to_string(format!("{}/{}", dir, file)) else { return Ok(()) };
            let sentences: Vec<Vec<String>> = [
                "", "a b", "a a b b", "a a a b b b", "a b a", "John loves Mary", "Mary loves Mary", "John loves", "What should I do ?", "What should I do", "a a c c", "a b c d", "b d", "a a b c c d",
            ]
            .iter()
            .map(|s| s.split_whitespace().map(|s| s.to_string()).collect())
            .collect();
            let corpus: String = sentences.iter().map(|s| s.join(" ") + "\n").collect();
            obs.state(case);
            if case.contains("csparsing") {
                csparsing_grammar(&text, &sentences, true, obs)
            } else if file.ends_with("pmcfg") {
                mcfg_grammar(&text, file.contains('2'), (corpus, sentences), true, obs)
            } else {
                // the search in the approximation of the third one does not end
                let classes: &[&str] = if file.contains('3') { &[] } else { &["S [S]\nN [A, B]\nR *\n"] };
                cfg_grammar(&text, (corpus, sentences), classes, true, obs)
            }
        },
        |c| c.to_string(),
    )
    .limit(300)
}

fn errors(_: Tier) -> Suite {
    Suite::over(
        "refused",
        "what cannot be answered: every program with missing, unreadable, malformed and wrong files, sentences in another encoding, and options          that are no numbers or not known; the program has to fail",
        wrong(),
        refuse,
        |c| format!("{}: rustomata {}", c.0, c.1.join(" ")),
    )
}

/// Words that mean something to somebody.
const TOKENS: [&str; 44] = [
    "a", "#", "#a", "##", "a#", "%", "%a", "//", "/", "a/b", "-", "--", "-n", "-n=2", "--help", "--negra", "-h", "1", "0", "42", "-1", "0.5", "→", "->", "*", "[", "]", "[a]", "(", ")", ",", ";", ":", ".", "'", "_", "S", "None",
    "initial:", "ä", "日本", "$", "!", "~",
];

/// All sentences of up to two of one word and two others.
fn token_sentences(t: &str) -> (String, Vec<Vec<String>>) {
    let mut v: Vec<Vec<String>> = vec![vec![], vec![t.into()], vec![t.into(), t.into()]];
    for u in TOKENS.iter().chain(&["\"", "\\", "\"a\""]).filter(|u| **u != t) {
        v.extend([vec![u.to_string()], vec![t.into(), u.to_string()], vec![u.to_string(), t.into()]]);
    }
    v.push(vec![t.into()]);
    let text = v.iter().map(|w| w.join(" ") + "\n").collect();
    (text, v)
}

fn symbols(t: Tier) -> Suite {
    let mut cases = Vec::new();
    for token in TOKENS {
        for kind in 0..3 {
            cases.push((token, kind));
        }
    }
    let full = t.pick(false, true);
    Suite::over(
        "symbols",
        "44 words, among them options, comments, numbers, separators and those of the notation, as symbols of a context-free grammar, a multiple context-free grammar and one for \
         csparsing, with sentences of up to two words with all others; the same programs and options; non-trivial: two parses",
        cases,
        move |&(token, kind), o| {
            o.state(&(token, kind));
            let (corpus, sentences) = token_sentences(token);
            match kind {
                0 => {
                    let text = format!("initial: [S]\nS → [T \"{0}\", Nt S]  # 0.5\nS → [T \"{0}\"]  # 0.25\nS → [T a]  # 0.125\nS → [Nt A, T \"{0}\"]  # 0.125\nA → [T \"{0}\"]  # 1", token);
                    cfg_grammar(&text, (corpus, sentences), &["S [S]\nR *\n"], full, o)
                }
                _ => {
                    let text = format!(
                        "initial: [S]\nS → [[Var 0 0, Var 1 0]] (A, B)  # 0.5\nS → [[Var 0 0]] (A)  # 0.25\nS → [[Var 0 0, Var 1 0]] (B, A)  # 0.25\nA → [[T \"{0}\"]] ()  # 0.5\nA → [[T a]] ()  # 0.25\nB → [[T \"{0}\"]] ()  # 0.75",
                        token
                    );
                    if kind == 1 {
                        return mcfg_grammar(&text, true, (corpus, sentences), full, o);
                    }
                    // (the last slash is the one before the symbol, if those are given)
                    if token.contains('/') {
                        return Ok(());
                    }
                    let few = sentences.into_iter().filter(|s| s.iter().all(|t| !t.contains('/'))).collect::<Vec<_>>();
                    csparsing_grammar(&text, &few, full, o)
                }
            }
        },
        |c| format!("{:?} (word, kind)", c),
    )
    .limit(300)
}

/// Grammars with n derivations of a word; what is best in the end looks best, or worst, at first.
fn many(t: Tier) -> Suite {
    let sizes: Vec<usize> = (1..=t.pick(12usize, 50)).chain([16, 17, 25, 32, 33, 40, 64, 65, 100, 130]).collect();
    let mut cases = Vec::new();
    for n in sizes {
        for best_last in [false, true] {
            for kind in 0..3 {
                cases.push((n, best_last, kind));
            }
        }
    }
    let full = t.pick(false, true);
    Suite::over(
        "many",
        "grammars with n derivations of a word, all of which are open at the same time, and of which the best one looks best or worst until its last step, for all n up to 12 (50) and some up to 130, as a \
         context-free grammar, a multiple context-free one and one for csparsing; the same programs and options; non-trivial: two parses",
        cases,
        move |&(n, best_last, kind), o| {
            o.state(&(n, best_last, kind));
            let mut text = "initial: [S]\n".to_string();
            // (weights of at most 1 in all approximations)
            let share = |f: &dyn Fn(usize) -> usize, i: usize| 0.99 * f(i) as f64 / (0..n).map(f).sum::<usize>() as f64;
            let first = |i: usize| share(&|i| 2 * n - i, i);
            let second = |i: usize| share(&|i| if best_last { (i + 1).pow(3) } else { 1 }, i);
            for i in 0..n {
                text += &match kind {
                    0 => format!("S → [Nt A{}, T b]  # {}\nA{} → [T a]  # {}\n", i, first(i), i, second(i)),
                    _ => format!("S → [[Var 0 0, Var 1 0]] (A{}, B)  # {}\nA{} → [[T a]] ()  # {}\n", i, first(i), i, second(i)),
                };
            }
            if kind > 0 {
                text += "B → [[T b]] ()  # 0.75\n";
            }
            let sentences: Vec<Vec<String>> = ["a b", "a", "", "b", "a b b", "a b"].iter().map(|s| s.split_whitespace().map(|x| x.to_string()).collect()).collect();
            let corpus = sentences.iter().map(|s| s.join(" ") + "\n").collect();
            match kind {
                0 => cfg_grammar(&text, (corpus, sentences), &["S [S]\nA [A1, A2]\nA0 [A0]\nR *\n", &each(n)], full, o),
                1 => mcfg_grammar(&text, true, (corpus, sentences), full, o),
                _ => csparsing_grammar(&text, &sentences, full, o),
            }
        },
        |c| format!("{:?} (n, the best is last, kind)", c),
    )
    .limit(300)
}

/// Every nonterminal in a class of its own, but for two of them.
fn each(n: usize) -> String {
    let mut s = "S [S]\n".to_string();
    for i in 2..n {
        s += &format!("C{} [A{}]\n", i, i);
    }
    s + "C *\n"
}

fn build(t: Tier) -> Vec<Suite> {
    let full = t.pick(false, true);
    let text = "; output for all words of up to two symbols, an unknown symbol, empty lines and odd white space, one process for each set of options";
    let cs = "; extracted from files and standard input, zipped or not, with estimates for different widths; output for all words of up to three \
              symbols with all options of the parser";
    vec![
        errors(t),
        examples(t),
        symbols(t),
        many(t),
        c25_mcfg::sets(
            "mcfg",
            &format!("all monotone grammars over nonterminals of fan-out 1 and 2 with rules of at most two nonterminals, one terminal and three symbols{}: parses, trees, the automaton, which is then used itself and coarse-to-fine, and its approximation", text),
            c25_mcfg::menu(&[1, 2], 2, 3, 1, 1),
            3,
            vec![1, 2],
            move |r, kind, o| {
                mcfg(r, kind == 2, full, o)
            },
        ),
        c25_mcfg::sets(
            "cfg",
            &format!("all context-free grammars over three nonterminals with rules of at most one nonterminal, one terminal and two symbols{}: parses, the automaton, and its relabellings by three files of classes", text),
            c24_cfg::menu(3, 1, 2, 1),
            t.pick(2, 3),
            vec![1, 2],
            move |r, kind, o| {
                cfg(r, kind == 2, full, o)
            },
        ),
        c25_mcfg::sets(
            "cfg-two",
            &format!("all context-free grammars over two nonterminals with rules of at most two nonterminals and symbols{}: the same", text),
            c24_cfg::menu(2, 2, 2, 1),
            3,
            vec![1],
            move |r, kind, o| {
                cfg(r, kind == 2, full, o)
            },
        ),
        c30_chomsky::sets(
            "csparsing",
            &format!("all grammars in normal form over three nonterminals of fan-out 1, the last one with terminal rules only, rules of at most two nonterminals{}", cs),
            c30_chomsky::preterminal(&[1, 1, 1], 2, 2),
            t.pick(5, 6),
            vec![1],
            move |s, o| {
                if s.finite && s.grammar().is_some() { csparsing(&s.rules, full, o) } else { Ok(()) }
            },
        ),
        c30_chomsky::sets(
            "csparsing-fan-out-2",
            &format!("all grammars in normal form over nonterminals of fan-out 1, 2 and 1, the last one with terminal rules only, rules of at most two nonterminals and four symbols{}", cs),
            c30_chomsky::preterminal(&[1, 2, 1], 4, 1),
            t.pick(3, 4),
            vec![1],
            move |s, o| {
                if s.finite && s.grammar().is_some() { csparsing(&s.rules, full, o) } else { Ok(()) }
            },
        ),
        c30_chomsky::sets(
            "discodop",
            &format!("the same grammars in the format of disco-dop with lexicon, and without such that nonterminals without rules are terminals{}", cs),
            c30_chomsky::preterminal(&[1, 2, 1], 4, 2),
            t.pick(3, 4),
            vec![1],
            move |s, o| {
                if s.finite { discodop(&s.rules, full, o) } else { Ok(()) }
            },
        ),
    ]
}

pub fn check() -> Check {
    Check {
        id: "C36",
        assumptions: vec!["the answers of the library are right, which other properties are about"],
        build,
    }
}
