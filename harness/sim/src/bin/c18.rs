fn main() {
    #[cfg(feature = "c18")]
    sim::check::unit_only("C18", unit::parts::c18::run);
    #[cfg(not(feature = "c18"))]
    sim::check::without_part("C18")
}
