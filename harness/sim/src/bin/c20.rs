fn main() {
    #[cfg(feature = "c20")]
    sim::check::unit_only("C20", unit::parts::c20::run);
    #[cfg(not(feature = "c20"))]
    sim::check::without_part("C20")
}
