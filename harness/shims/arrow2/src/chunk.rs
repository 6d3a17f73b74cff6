use crate::array::Array;
use crate::error::{Error, Result};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Chunk<A: AsRef<dyn Array>> { arrays: Vec<A> }
impl<A: AsRef<dyn Array>> Chunk<A> {
    pub fn new(arrays: Vec<A>) -> Self { Self::try_new(arrays).unwrap() }
    pub fn try_new(arrays: Vec<A>) -> Result<Self> {
        if !arrays.is_empty() {
            let len = arrays[0].as_ref().len();
            if arrays.iter().any(|a| a.as_ref().len() != len) {
                return Err(Error::InvalidArgumentError("Chunk require all its arrays to have an equal number of rows".to_string()));
            }
        }
        Ok(Chunk { arrays })
    }
    pub fn arrays(&self) -> &[A] { &self.arrays }
    pub fn columns(&self) -> &[A] { &self.arrays }
    pub fn len(&self) -> usize { self.arrays.first().map(|a| a.as_ref().len()).unwrap_or(0) }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn into_arrays(self) -> Vec<A> { self.arrays }
}
