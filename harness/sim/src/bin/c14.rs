fn main() {
    #[cfg(feature = "c14")]
    sim::check::unit_only("C14", unit::parts::c14::run);
    #[cfg(not(feature = "c14"))]
    sim::check::without_part("C14")
}
