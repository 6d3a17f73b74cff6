//! Stand-in for zxcvbn: the score is how many fours of distinct characters a password has, 0 if it is
//! one of the inputs.
use std::fmt;
#[derive(Debug, PartialEq, Eq)]
pub enum ZxcvbnError { BlankPassword }
impl fmt::Display for ZxcvbnError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Zxcvbn cannot evaluate a blank password") } }
impl std::error::Error for ZxcvbnError {}
pub struct Entropy(u8);
impl Entropy { pub fn score(&self) -> u8 { self.0 } }
pub fn zxcvbn(p: &str, inputs: &[&str]) -> Result<Entropy, ZxcvbnError> {
    if p.is_empty() { return Err(ZxcvbnError::BlankPassword); }
    if inputs.contains(&p) { return Ok(Entropy(0)); }
    let d: std::collections::BTreeSet<char> = p.chars().collect();
    Ok(Entropy((d.len() / 4).min(4) as u8))
}
