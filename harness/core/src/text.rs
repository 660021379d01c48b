//! A reference reader for the documented grammar formats, written from the documentation
//! (README.md, the comments of `parse_token` and of `initial_rule_grammar_from_str`), and the
//! observable form of grammars.

use rustomata::grammars::cfg::{CFGRule, LetterT, CFG};
use rustomata::grammars::lcfrs::Lcfrs;
use rustomata::grammars::pmcfg::{PMCFGRule, VarT, PMCFG};
use std::fmt::Debug;
use std::hash::Hash;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Sym {
    /// A terminal.
    T(String),
    /// A nonterminal of a context-free rule.
    N(String),
    /// A variable of a multiple context-free rule.
    V(usize, usize),
}

/// A rule of either formalism; the weight is given by the bits of an `f64`.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rule {
    pub head: String,
    pub comp: Vec<Vec<Sym>>,
    pub tail: Vec<String>,
    pub weight: u64,
}

impl Rule {
    pub fn show(&self) -> String {
        format!("{} → {:?} {:?} # {:?}", self.head, self.comp, self.tail, f64::from_bits(self.weight))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grammar {
    pub initial: Vec<String>,
    pub rules: Vec<Rule>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Format {
    Cfg,
    Pmcfg,
}

pub struct Reader<'a> {
    rest: &'a str,
}

pub type R<T> = Result<T, ()>;

impl<'a> Reader<'a> {
    pub fn new(rest: &'a str) -> Self {
        Reader { rest }
    }
    pub fn rest(&self) -> &'a str {
        self.rest
    }
    pub fn ws(&mut self) {
        self.rest = self.rest.trim_start_matches([' ', '\t']);
    }
    pub fn tag(&mut self, t: &str) -> bool {
        match self.rest.strip_prefix(t) {
            Some(r) => {
                self.rest = r;
                true
            }
            None => false,
        }
    }
    pub fn need(&mut self, t: &str) -> R<()> {
        if self.tag(t) {
            Ok(())
        } else {
            Err(())
        }
    }
    pub fn token(&mut self) -> R<String> {
        if let Some(q) = self.rest.strip_prefix('"') {
            let mut escaped = false;
            for (i, c) in q.char_indices() {
                if escaped {
                    if c != '"' && c != '\\' {
                        return Err(());
                    }
                    escaped = false;
                } else if c == '\\' {
                    escaped = true;
                } else if c == '"' {
                    self.rest = &q[i + 1..];
                    return Ok(q[..i].to_string());
                }
            }
            Err(())
        } else {
            let end = self.rest.find([' ', '\\', '"', '-', '→', ',', ';', ')', ']', '%', '#']).unwrap_or(self.rest.len());
            if end == 0 {
                return Err(());
            }
            let t = self.rest[..end].to_string();
            self.rest = &self.rest[end..];
            Ok(t)
        }
    }
    fn number(&mut self) -> R<usize> {
        let end = self.rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(self.rest.len());
        let n = self.rest[..end].parse().map_err(|_| ())?;
        self.rest = &self.rest[end..];
        Ok(n)
    }
    pub fn list<T>(&mut self, open: &str, close: &str, item: &dyn Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.need(open)?;
        self.ws();
        let mut out = Vec::new();
        loop {
            if self.tag(close) {
                return Ok(out);
            }
            self.tag(",");
            self.ws();
            out.push(item(self)?);
            self.ws();
        }
    }
    fn letter(&mut self) -> R<Sym> {
        if self.tag("Nt") {
            self.ws();
            self.token().map(Sym::N)
        } else if self.tag("T") {
            self.ws();
            self.token().map(Sym::T)
        } else {
            Err(())
        }
    }
    fn var(&mut self) -> R<Sym> {
        if self.tag("Var") {
            self.ws();
            let i = self.number()?;
            self.ws();
            Ok(Sym::V(i, self.number()?))
        } else if self.tag("T") {
            self.ws();
            self.token().map(Sym::T)
        } else {
            Err(())
        }
    }
    pub fn end(&mut self) -> R<()> {
        self.ws();
        if self.rest.is_empty() || self.rest.starts_with('%') {
            Ok(())
        } else {
            Err(())
        }
    }
    fn rule(&mut self, format: Format) -> R<Rule> {
        let head = self.token()?;
        self.ws();
        if !(self.tag("→") || self.tag("->") || self.tag("=>")) {
            return Err(());
        }
        self.ws();
        let (comp, tail) = match format {
            Format::Cfg => (vec![self.list("[", "]", &|r| r.letter())?], Vec::new()),
            Format::Pmcfg => {
                let c = self.list("[", "]", &|r| r.list("[", "]", &|r| r.var()))?;
                self.ws();
                (c, self.list("(", ")", &|r| r.token())?)
            }
        };
        self.ws();
        let mut weight = 1f64;
        if self.tag("#") {
            self.ws();
            let end = self.rest.find(' ').unwrap_or(self.rest.len());
            weight = self.rest[..end].parse().map_err(|_| ())?;
            self.rest = &self.rest[end..];
        }
        self.end()?;
        Ok(Rule { head, comp, tail, weight: weight.to_bits() })
    }
}

/// The grammar that a text denotes.
pub fn read(text: &str, format: Format) -> Result<Grammar, ()> {
    let mut g = Grammar { initial: Vec::new(), rules: Vec::new() };
    for line in text.lines() {
        let l = line.trim();
        let mut r = Reader { rest: l };
        if r.tag("initial:") {
            r.ws();
            g.initial.extend(r.list("[", "]", &|r| r.token())?);
            r.end()?;
        } else if !l.is_empty() && !l.starts_with('%') {
            g.rules.push(r.rule(format)?);
        }
    }
    Ok(g)
}

/// Names of any type, as strings.
pub trait Name: Eq + Hash + Clone + Debug {
    fn name(&self) -> String;
}

impl Name for String {
    fn name(&self) -> String {
        self.clone()
    }
}

impl Name for char {
    fn name(&self) -> String {
        self.to_string()
    }
}

impl Name for u8 {
    fn name(&self) -> String {
        self.to_string()
    }
}

impl Name for usize {
    fn name(&self) -> String {
        self.to_string()
    }
}

pub fn of_cfg_rule<N: Name, T: Name>(r: &CFGRule<N, T, f64>) -> Rule {
    Rule {
        head: r.head.name(),
        comp: vec![r
            .composition
            .composition
            .iter()
            .map(|l| match l {
                LetterT::Label(n) => Sym::N(n.name()),
                LetterT::Value(t) => Sym::T(t.name()),
            })
            .collect()],
        tail: Vec::new(),
        weight: r.weight.to_bits(),
    }
}

pub fn of_cfg<N: Name, T: Name>(g: &CFG<N, T, f64>) -> Grammar {
    Grammar {
        initial: g.initial.iter().map(|n| n.name()).collect(),
        rules: g.rules.iter().map(of_cfg_rule).collect(),
    }
}

pub fn of_pmcfg_rule<N: Name, T: Name>(r: &PMCFGRule<N, T, f64>) -> Rule {
    Rule {
        head: r.head.name(),
        comp: r
            .composition
            .composition
            .iter()
            .map(|c| {
                c.iter()
                    .map(|s| match s {
                        VarT::Var(i, j) => Sym::V(*i, *j),
                        VarT::T(t) => Sym::T(t.name()),
                    })
                    .collect()
            })
            .collect(),
        tail: r.tail.iter().map(|n| n.name()).collect(),
        weight: r.weight.to_bits(),
    }
}

pub fn of_pmcfg<N: Name, T: Name>(g: &PMCFG<N, T, f64>) -> Grammar {
    Grammar {
        initial: g.initial.iter().map(|n| n.name()).collect(),
        rules: g.rules.iter().map(of_pmcfg_rule).collect(),
    }
}

pub fn of_lcfrs<N: Name, T: Name>(g: Lcfrs<N, T, f64>) -> Grammar {
    let (rules, init) = g.destruct();
    Grammar { initial: vec![init.name()], rules: rules.iter().map(of_pmcfg_rule).collect() }
}

pub fn same(what: &str, got: &Grammar, e: &Grammar) -> Result<(), String> {
    if got.initial != e.initial {
        return Err(format!("{}: initial nonterminals {:?}, not {:?}", what, got.initial, e.initial));
    }
    for (i, r) in e.rules.iter().enumerate() {
        match got.rules.get(i) {
            None => return Err(format!("{}: rule {} is missing", what, r.show())),
            Some(q) if q != r => return Err(format!("{}: rule {}, not {}", what, q.show(), r.show())),
            _ => (),
        }
    }
    if got.rules.len() > e.rules.len() {
        return Err(format!("{}: additional rule {}", what, got.rules[e.rules.len()].show()));
    }
    Ok(())
}

/// A line of a listing of equivalence classes: the class and its values, `None` for a default.
pub fn read_class(line: &str) -> Result<(String, Option<Vec<String>>), ()> {
    let mut r = Reader { rest: line };
    let label = r.token()?;
    r.ws();
    let set = if r.tag("*") { None } else { Some(r.list("[", "]", &|r| r.token())?) };
    r.end()?;
    Ok((label, set))
}
