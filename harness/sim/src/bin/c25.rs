fn main() {
    sim::check::main_with("C25", |_| {}, sim::config::run)
}
