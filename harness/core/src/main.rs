mod c01_agenda;
mod c02_search;
mod c03_unique_heap;
mod c04_multimap;
mod c05_gorn;
mod c06_partition;
mod c07_dyck;
mod c09_equivalence;
mod c10_weights;
mod c11_grammar_text;
mod c13_malformed;
mod c14_conversions;
mod c17_derivations;
mod c20_discodop;
mod c21_configurations;
mod c39_rules;
mod text;

fn main() {
    mc_common::main(vec![
        c01_agenda::check(),
        c02_search::check(),
        c03_unique_heap::check(),
        c04_multimap::check(),
        c05_gorn::check(),
        c06_partition::check(),
        c07_dyck::check(),
        c09_equivalence::check(),
        c10_weights::check(),
        c11_grammar_text::c11(),
        c11_grammar_text::c12(),
        c13_malformed::check(),
        c14_conversions::c14(),
        c14_conversions::c15(),
        c14_conversions::c16(),
        c17_derivations::c17(),
        c17_derivations::c18(),
        c17_derivations::c19(),
        c20_discodop::check(),
        c21_configurations::check(),
        c39_rules::check(),
    ])
}
