fn main() {
    sim::check::main("C05", |_| {})
}
