//! Assumed contract of `regex`, specialised to the one pattern the verified
//! crates compile: the language of `CONTRACT_NAME_REGEX` is the contract-name
//! grammar. That equality is not assumed blindly: the check of the
//! contract-name property extracts the pattern from the compiled code on every
//! run and decides language equality by automaton equivalence
//! (/verif/regexeq.py).
#[derive(Clone, Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("regex error")
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug)]
pub struct Regex;

impl Regex {
    pub fn new(_: &str) -> Result<Regex, Error> {
        Ok(Regex)
    }
    pub fn is_match(&self, s: &str) -> bool {
        let b = s.as_bytes();
        let t = b"__transient";
        let n = b.len();
        let mut tr = n == 11;
        let mut ok = n >= 1 && n <= 40;
        let mut i = 0;
        while i < n && i < 41 {
            let c = b[i];
            let alpha = (c >= b'a' && c <= b'z') | (c >= b'A' && c <= b'Z');
            let rest = (c >= b'0' && c <= b'9') | (c == b'-') | (c == b'_');
            ok &= alpha | (rest & (i > 0));
            if n == 11 {
                tr &= c == t[i];
            }
            i += 1;
        }
        ok | tr
    }
}
