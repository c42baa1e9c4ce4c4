fn main() {
    #[cfg(feature = "c22")]
    sim::check::unit_only("C22", unit::parts::c22::run);
    #[cfg(not(feature = "c22"))]
    sim::check::without_part("C22")
}
