fn main() {
    #[cfg(feature = "c24")]
    sim::check::main("C24", unit::parts::c24::run);
    #[cfg(not(feature = "c24"))]
    sim::check::without_part("C24")
}
