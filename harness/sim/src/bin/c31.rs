fn main() {
    sim::check::main("C31", |_| {})
}
