fn main() {
    sim::check::main("C09", |_| {})
}
