fn main() {
    sim::check::main("C26", |_| {})
}
