mod gens;
mod grammar;
mod iris;
mod maps;
mod names;

fn main() {
    if let Some(input) = pbt::to_produce() {
        return iris::produce(&input);
    }
    let mut all = names::properties();
    all.extend(iris::properties());
    all.extend(maps::properties());
    pbt::main_with(all)
}
