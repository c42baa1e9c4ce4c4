fn main() {
    sim::check::main("C06", |_| {})
}
