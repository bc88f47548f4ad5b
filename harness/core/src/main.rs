#[path = "../../iri/src/grammar.rs"]
#[allow(dead_code)]
mod grammar;

mod builder;
mod errors;
mod graphs;
mod literals;
mod nodes;
mod sets;

fn main() {
    if let Some(input) = pbt::to_produce() {
        return nodes::produce(&input);
    }
    let mut all = graphs::properties();
    all.extend(nodes::properties());
    all.extend(literals::properties());
    all.extend(sets::properties());
    all.extend(builder::properties());
    all.extend(errors::properties());
    pbt::QUICK_SCALE.store(2, std::sync::atomic::Ordering::Relaxed);
    pbt::main_with(all)
}
