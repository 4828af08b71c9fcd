//! Stand-in for blake2: the digest is the input folded into the output length (injective up to
//! that length), which keeps comparisons of digests within reach of the solver.
pub struct Blake2bVar {
    n: usize,
    buf: Vec<u8>,
}
pub mod digest {
    pub trait Update {
        fn update(&mut self, data: &[u8]);
    }
    #[derive(Debug)]
    pub struct InvalidOutputSize;
    #[derive(Debug)]
    pub struct InvalidBufferSize;
    pub trait VariableOutput: Sized {
        fn new(n: usize) -> Result<Self, InvalidOutputSize>;
        fn finalize_variable(self, out: &mut [u8]) -> Result<(), InvalidBufferSize>;
        fn finalize_boxed(self) -> Box<[u8]>;
    }
}
use digest::*;
impl Update for Blake2bVar {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data)
    }
}
impl VariableOutput for Blake2bVar {
    fn new(n: usize) -> Result<Self, InvalidOutputSize> {
        if n == 0 || n > 64 {
            return Err(InvalidOutputSize);
        }
        Ok(Self { n, buf: Vec::new() })
    }
    fn finalize_variable(self, out: &mut [u8]) -> Result<(), InvalidBufferSize> {
        if out.len() != self.n {
            return Err(InvalidBufferSize);
        }
        for x in out.iter_mut() {
            *x = 0;
        }
        for (i, b) in self.buf.iter().enumerate() {
            out[i % self.n] ^= b;
        }
        Ok(())
    }
    fn finalize_boxed(self) -> Box<[u8]> {
        let mut v = vec![0u8; self.n];
        let _ = self.finalize_variable(&mut v);
        v.into_boxed_slice()
    }
}
