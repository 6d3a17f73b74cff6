//! Stand-in for password-hash: the same strings and calls, with a plain salted digest behind them.
use std::fmt;
use sha2::Digest;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Error { Password, PhcStringField, SaltInvalid }
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(match self { Error::Password => "invalid password", Error::PhcStringField => "password hash string missing field", Error::SaltInvalid => "salt invalid" }) } }
impl std::error::Error for Error {}
#[derive(Clone, Debug)]
pub struct SaltString(String);
impl SaltString { pub fn generate(mut r: impl rand::RngCore) -> Self { SaltString(format!("{:016x}", r.next_u64())) } }
pub trait PasswordHasher { fn ident(&self) -> String; }
pub trait PasswordVerifier { fn verifies(&self, alg: &str) -> bool; }
#[derive(Clone, Debug)]
pub struct PasswordHash<'a> { alg: String, salt: String, hash: String, _s: std::marker::PhantomData<&'a ()> }
fn digest(salt: &str, p: &[u8]) -> String { let mut h = sha2::Sha256::new(); h.update(salt.as_bytes()); h.update(p); h.finalize().iter().map(|b| format!("{b:02x}")).collect() }
impl<'a> PasswordHash<'a> {
    pub fn new(s: &'a str) -> Result<Self, Error> {
        let p: Vec<&str> = s.split('$').collect();
        if p.len() != 4 || !p[0].is_empty() || p[1].is_empty() { return Err(Error::PhcStringField); }
        Ok(Self { alg: p[1].into(), salt: p[2].into(), hash: p[3].into(), _s: std::marker::PhantomData })
    }
    pub fn generate(phf: impl PasswordHasher, password: impl AsRef<[u8]>, salt: &SaltString) -> Result<Self, Error> {
        Ok(Self { alg: phf.ident(), salt: salt.0.clone(), hash: digest(&salt.0, password.as_ref()), _s: std::marker::PhantomData })
    }
    pub fn verify_password(&self, phfs: &[&dyn PasswordVerifier], password: impl AsRef<[u8]>) -> Result<(), Error> {
        if phfs.iter().any(|p| p.verifies(&self.alg)) && digest(&self.salt, password.as_ref()) == self.hash { Ok(()) } else { Err(Error::Password) }
    }
}
impl fmt::Display for PasswordHash<'_> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "${}${}${}", self.alg, self.salt, self.hash) } }
