fn main() {
    #[cfg(feature = "c19")]
    sim::check::main("C19", unit::parts::c19::run);
    #[cfg(not(feature = "c19"))]
    sim::check::without_part("C19")
}
