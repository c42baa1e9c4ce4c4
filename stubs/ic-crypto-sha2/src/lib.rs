use sha2::Digest;

#[derive(Clone, Default)]
pub struct Sha256 {
    state: sha2::Sha256,
}

impl Sha256 {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn hash(data: &[u8]) -> [u8; 32] {
        let mut h = Self::new();
        h.write(data);
        h.finish()
    }
    pub fn write(&mut self, data: &[u8]) {
        self.state.update(data);
    }
    pub fn finish(self) -> [u8; 32] {
        self.state.finalize().into()
    }
}

impl std::io::Write for Sha256 {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.state.update(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
