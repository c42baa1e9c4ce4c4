fn main() {
    #[cfg(feature = "c15")]
    sim::check::main("C15", unit::parts::c15::run);
    #[cfg(not(feature = "c15"))]
    sim::check::without_part("C15")
}
