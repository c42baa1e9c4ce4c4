fn main() {
    #[cfg(feature = "c16")]
    sim::check::main("C16", unit::parts::c16::run);
    #[cfg(not(feature = "c16"))]
    sim::check::without_part("C16")
}
