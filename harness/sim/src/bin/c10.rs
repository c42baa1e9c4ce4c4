fn main() {
    sim::check::main("C10", |_| {})
}
