fn main() {
    sim::check::main("C12", |_| {})
}
