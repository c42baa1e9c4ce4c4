fn main() {
    #[cfg(feature = "c13")]
    sim::check::main("C13", unit::parts::c13::run);
    #[cfg(not(feature = "c13"))]
    sim::check::without_part("C13")
}
