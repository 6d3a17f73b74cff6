//! Stand-in for validator: the HTML5 rule for email addresses, which the crate uses too.
pub fn validate_email<T: AsRef<str>>(v: T) -> bool {
    let Some((user, domain)) = v.as_ref().rsplit_once('@') else { return false };
    let m = |r: &str, s: &str| regex::Regex::new(r).unwrap().is_match(s);
    user.len() <= 64 && domain.len() <= 255 && m(r"^(?i)[a-z0-9.!#$%&'*+/=?^_`{|}~-]+\z", user)
        && m(r"^(?i)[a-z0-9](?:[a-z0-9-]{0,61}[a-z0-9])?(?:\.[a-z0-9](?:[a-z0-9-]{0,61}[a-z0-9])?)*\z", domain)
}
