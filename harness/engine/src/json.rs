//! Just enough JSON: writing values, and reading back the replay files this engine writes.
pub fn s(x: &str) -> String {
    let mut o = String::with_capacity(x.len() + 2);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(", "))
}
/// Value of a top-level string field without escapes (facet names, hex strings).
pub fn get_str(text: &str, key: &str) -> Option<String> {
    let k = format!("\"{key}\": \"");
    let i = text.find(&k)? + k.len();
    let j = text[i..].find('"')? + i;
    Some(text[i..j].to_string())
}
