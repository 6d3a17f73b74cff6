#[derive(Debug, Clone, PartialEq, Default)]
pub struct Bitmap(pub(crate) Vec<bool>);
impl Bitmap {
    pub fn len(&self) -> usize { self.0.len() }
    pub fn is_empty(&self) -> bool { self.0.is_empty() }
    pub fn get_bit(&self, i: usize) -> bool { self.0[i] }
    pub fn iter(&self) -> impl Iterator<Item = bool> + '_ { self.0.iter().copied() }
    pub fn unset_bits(&self) -> usize { self.0.iter().filter(|b| !**b).count() }
    pub fn sliced(self, off: usize, len: usize) -> Self { Bitmap(self.0[off..off + len].to_vec()) }
}
impl From<Vec<bool>> for Bitmap { fn from(v: Vec<bool>) -> Self { Bitmap(v) } }
impl FromIterator<bool> for Bitmap { fn from_iter<I: IntoIterator<Item = bool>>(i: I) -> Self { Bitmap(i.into_iter().collect()) } }
