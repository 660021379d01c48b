mod c08_multiple_dyck;
mod c22_tree_stack;
mod c23_pushdown;
mod c24_cfg;
mod c25_mcfg;
mod c26_fsa;
mod c28_approximation;
mod c30_chomsky;
mod c34_automaton_text;
mod c35_integerise;
mod c36_cli;
mod c38_automata;
mod parse;
#[allow(dead_code)]
#[path = "../../core/src/text.rs"]
mod text;

use mc_common::Check;

fn main() {
    let mut checks = vec![
        c08_multiple_dyck::check(),
        c22_tree_stack::check(),
        c23_pushdown::check(),
        Check { id: "C24", assumptions: vec![], build: c24_cfg::suites },
        Check { id: "C25", assumptions: vec![], build: c25_mcfg::suites },
        Check { id: "C26", assumptions: vec![], build: c26_fsa::suites },
        Check { id: "C27", assumptions: vec![], build: |t| [c24_cfg::beam_suites(t), c25_mcfg::beam_suites(t), c26_fsa::beam_suites(t)].into_iter().flatten().collect() },
        c28_approximation::c28(),
        c28_approximation::c29(),
        c34_automaton_text::check(),
        c35_integerise::c35(),
        c36_cli::check(),
        c35_integerise::c37(),
        c38_automata::check(),
    ];
    checks.extend(c30_chomsky::checks());
    mc_common::main(checks)
}
