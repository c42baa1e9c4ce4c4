fn main() {
    #[cfg(feature = "c23")]
    sim::check::main("C23", unit::parts::c23::run);
    #[cfg(not(feature = "c23"))]
    sim::check::without_part("C23")
}
