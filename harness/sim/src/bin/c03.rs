fn main() {
    sim::check::main("C03", |_| {})
}
