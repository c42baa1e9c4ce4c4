fn main() {
    sim::check::main("C01", |_| {})
}
