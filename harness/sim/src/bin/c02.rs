fn main() {
    sim::check::main("C02", |_| {})
}
