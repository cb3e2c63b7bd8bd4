pub use ::std::env::*;
use ::std::cell::RefCell;
use ::std::collections::BTreeMap;
use ::std::ffi::{OsStr, OsString};

thread_local! {
    static VARS: RefCell<BTreeMap<OsString, OsString>> = RefCell::new(BTreeMap::new());
}

/// For the harness: the environment of the next process.
pub fn verif_set(vars: &[(String, OsString)]) {
    VARS.with(|v| {
        let mut v = v.borrow_mut();
        v.clear();
        for (k, x) in vars {
            v.insert(OsString::from(k), x.clone());
        }
    });
}

pub fn var_os<K: AsRef<OsStr>>(key: K) -> Option<OsString> {
    VARS.with(|v| v.borrow().get(key.as_ref()).cloned())
}

pub fn var<K: AsRef<OsStr>>(key: K) -> Result<String, VarError> {
    match var_os(key) {
        Some(s) => s.into_string().map_err(VarError::NotUnicode),
        None => Err(VarError::NotPresent),
    }
}

pub fn vars_os() -> ::std::vec::IntoIter<(OsString, OsString)> {
    VARS.with(|v| v.borrow().iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>().into_iter())
}

pub fn vars() -> ::std::vec::IntoIter<(String, String)> {
    vars_os().map(|(k, v)| (k.into_string().unwrap(), v.into_string().unwrap())).collect::<Vec<_>>().into_iter()
}

pub fn set_var<K: AsRef<OsStr>, V: AsRef<OsStr>>(key: K, value: V) {
    VARS.with(|v| v.borrow_mut().insert(key.as_ref().to_owned(), value.as_ref().to_owned()));
}

pub fn remove_var<K: AsRef<OsStr>>(key: K) {
    VARS.with(|v| v.borrow_mut().remove(key.as_ref()));
}

pub fn args() -> ::std::vec::IntoIter<String> {
    vec!["bitcoin-indexer".to_string()].into_iter()
}

pub fn temp_dir() -> ::std::path::PathBuf {
    // not where the store is
    let p = crate::fs::verif_root().join("tmp");
    let _ = ::std::fs::create_dir_all(&p);
    p
}
