fn main() {
    sim::check::main("C28", |_| {})
}
