fn main() {
    sim::check::main("C04", |_| {})
}
