use io_checks::*;

fn main() {
    let mut all = lines::properties();
    all.extend(dot::properties());
    all.extend(json::properties());
    all.extend(options::properties());
    all.extend(robust::properties());
    all.extend(turtle::properties());
    all.extend(xml::properties());
    pbt::QUICK_SCALE.store(3, std::sync::atomic::Ordering::Relaxed);
    pbt::main_with(all)
}
