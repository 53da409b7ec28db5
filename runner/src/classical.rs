//! What the modules shared with the other driver expect of it.
use serde_json::Value;

pub struct Case<'a> {
    pub steps: &'a [Value],
    pub seed: u64,
    /// how many operations of the real system were performed
    pub ops: u64,
}

pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or_else(|| panic!("driver: no text {k} in {v}"))
}
pub fn i(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or_else(|| panic!("driver: no number {k} in {v}"))
}
pub fn u(v: &Value, k: &str) -> usize {
    i(v, k) as usize
}

pub type Out = Result<(), String>;
