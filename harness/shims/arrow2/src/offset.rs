use crate::types::Offset;
#[derive(Debug, Clone, PartialEq)]
pub struct OffsetsBuffer<O: Offset>(pub(crate) Vec<O>);
impl<O: Offset> OffsetsBuffer<O> {
    pub fn start_end(&self, i: usize) -> (usize, usize) { (self.0[i].us(), self.0[i + 1].us()) }
    pub fn len_proxy(&self) -> usize { self.0.len() - 1 }
    pub fn as_slice(&self) -> &[O] { &self.0 }
}
