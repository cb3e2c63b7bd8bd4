//! `regex`, with compiled expressions remembered: the program compiles the same few at every start.
pub use ::regex::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt;
use std::str::FromStr;

#[derive(Clone)]
pub struct Regex(::regex::Regex);

thread_local! {
    static CACHE: RefCell<HashMap<String, ::regex::Regex>> = RefCell::new(HashMap::new());
}

impl Regex {
    pub fn new(re: &str) -> Result<Regex, Error> {
        if let Some(r) = CACHE.with(|c| c.borrow().get(re).cloned()) {
            return Ok(Regex(r));
        }
        let r = ::regex::Regex::new(re)?;
        CACHE.with(|c| {
            let mut c = c.borrow_mut();
            if c.len() < 1000 {
                c.insert(re.to_string(), r.clone());
            }
        });
        Ok(Regex(r))
    }
}
impl std::ops::Deref for Regex {
    type Target = ::regex::Regex;
    fn deref(&self) -> &::regex::Regex {
        &self.0
    }
}
impl fmt::Debug for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
impl fmt::Display for Regex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl FromStr for Regex {
    type Err = Error;
    fn from_str(s: &str) -> Result<Regex, Error> {
        Regex::new(s)
    }
}
impl From<::regex::Regex> for Regex {
    fn from(r: ::regex::Regex) -> Regex {
        Regex(r)
    }
}
