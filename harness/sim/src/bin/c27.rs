fn main() {
    sim::check::main("C27", |_| {})
}
