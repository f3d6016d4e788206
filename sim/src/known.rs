//! The committed list of known findings (never written at run time).
use std::sync::OnceLock;
static LIST: OnceLock<Vec<(String, String)>> = OnceLock::new();

/// lines: `finding: property=<id> | <signature> | <what fails>`; other lines are ignored
pub fn load(path: &str) {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("finding: property=") {
            let mut it = rest.split(" | ");
            let (id, sig) = (it.next().unwrap_or("").trim(), it.next().unwrap_or("").trim());
            v.push((id.to_string(), sig.to_string()));
        }
    }
    let _ = LIST.set(v);
}
/// `sig` is "<property> <signature>"
pub fn listed(sig: &str) -> bool {
    let Some(l) = LIST.get() else { return false };
    l.iter().any(|(id, s)| sig.len() == id.len() + 1 + s.len() && sig.starts_with(id.as_str()) && sig.ends_with(s.as_str()))
}
