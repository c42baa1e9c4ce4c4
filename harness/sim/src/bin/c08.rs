fn main() {
    #[cfg(feature = "c08")]
    sim::check::main("C08", unit::parts::c08::run);
    #[cfg(not(feature = "c08"))]
    sim::check::without_part("C08")
}
