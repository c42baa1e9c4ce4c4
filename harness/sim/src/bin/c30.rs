fn main() {
    sim::check::main("C30", |_| {})
}
