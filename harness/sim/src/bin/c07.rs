fn main() {
    sim::check::main("C07", |_| {})
}
