fn main() {
    sim::check::main("C11", |_| {})
}
