//! Stand-in for argon2 (see password-hash).
use password_hash::{PasswordHasher, PasswordVerifier};
#[derive(Clone, Copy)]
pub enum Algorithm { Argon2d, Argon2i, Argon2id }
#[derive(Clone, Copy)]
pub enum Version { V0x10, V0x13 }
#[derive(Clone, Default)]
pub struct Params;
#[derive(Clone)]
pub struct Argon2(Algorithm);
impl Argon2 { pub fn new(a: Algorithm, _: Version, _: Params) -> Self { Self(a) } }
impl Default for Argon2 { fn default() -> Self { Self(Algorithm::Argon2id) } }
impl PasswordHasher for Argon2 { fn ident(&self) -> String { match self.0 { Algorithm::Argon2d => "argon2d", Algorithm::Argon2i => "argon2i", Algorithm::Argon2id => "argon2id" }.into() } }
impl PasswordVerifier for Argon2 { fn verifies(&self, a: &str) -> bool { a.starts_with("argon2") } }
