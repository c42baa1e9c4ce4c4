fn main() {
    #[cfg(feature = "c17")]
    sim::check::main("C17", unit::parts::c17::run);
    #[cfg(not(feature = "c17"))]
    sim::check::without_part("C17")
}
