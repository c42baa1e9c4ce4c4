fn main() {
    #[cfg(feature = "c21")]
    sim::check::main("C21", unit::parts::c21::run);
    #[cfg(not(feature = "c21"))]
    sim::check::without_part("C21")
}
