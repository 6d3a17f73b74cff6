//! Stand-in for uaparser: a user agent is `family/major.minor|device family,brand,model|os family/major.minor.patch.patchminor`
//! with any part missing.
use std::borrow::Cow;
pub struct UserAgent<'a> { pub family: Cow<'a, str>, pub major: Option<Cow<'a, str>>, pub minor: Option<Cow<'a, str>>, pub patch: Option<Cow<'a, str>> }
pub struct Device<'a> { pub family: Cow<'a, str>, pub brand: Option<Cow<'a, str>>, pub model: Option<Cow<'a, str>> }
pub struct OS<'a> { pub family: Cow<'a, str>, pub major: Option<Cow<'a, str>>, pub minor: Option<Cow<'a, str>>, pub patch: Option<Cow<'a, str>>, pub patch_minor: Option<Cow<'a, str>> }
pub struct Client<'a> { pub device: Device<'a>, pub os: OS<'a>, pub user_agent: UserAgent<'a> }
pub trait Parser { fn parse<'a>(&self, ua: &'a str) -> Client<'a>; }
#[derive(Debug, Clone)]
pub struct UserAgentParser;
#[derive(Debug)]
pub struct Error;
impl UserAgentParser { pub fn from_bytes(_: &[u8]) -> Result<Self, Error> { Ok(Self) } pub fn from_yaml(_: &str) -> Result<Self, Error> { Ok(Self) } }
fn part<'a>(v: &[&'a str], i: usize) -> Option<Cow<'a, str>> { v.get(i).filter(|s| !s.is_empty()).map(|s| Cow::Borrowed(*s)) }
fn versioned(s: &str) -> (Cow<'_, str>, Vec<&str>) {
    let (f, v) = s.split_once('/').unwrap_or((s, ""));
    (if f.is_empty() { Cow::Borrowed("Other") } else { Cow::Borrowed(f) }, v.split('.').collect())
}
impl Parser for UserAgentParser {
    fn parse<'a>(&self, ua: &'a str) -> Client<'a> {
        let p: Vec<&str> = ua.split('|').collect();
        let (uf, uv) = versioned(p[0]);
        let d: Vec<&str> = p.get(1).copied().unwrap_or("").split(',').collect();
        let (of, ov) = versioned(p.get(2).copied().unwrap_or(""));
        Client {
            user_agent: UserAgent { family: uf, major: part(&uv, 0), minor: part(&uv, 1), patch: part(&uv, 2) },
            device: Device { family: part(&d, 0).unwrap_or(Cow::Borrowed("Other")), brand: part(&d, 1), model: part(&d, 2) },
            os: OS { family: of, major: part(&ov, 0), minor: part(&ov, 1), patch: part(&ov, 2), patch_minor: part(&ov, 3) },
        }
    }
}
