pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(Vec<(String, J)>),
}
impl From<&str> for J { fn from(s: &str) -> J { J::Str(s.to_string()) } }
impl From<String> for J { fn from(s: String) -> J { J::Str(s) } }
impl From<usize> for J { fn from(s: usize) -> J { J::Int(s as i128) } }
impl From<u32> for J { fn from(s: u32) -> J { J::Int(s as i128) } }
impl From<bool> for J { fn from(s: bool) -> J { J::Bool(s) } }
impl From<Vec<J>> for J { fn from(s: Vec<J>) -> J { J::Arr(s) } }
impl<T: Into<J>> From<Option<T>> for J { fn from(s: Option<T>) -> J { s.map(Into::into).unwrap_or(J::Null) } }
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Str(s) => esc(s, o),
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
            J::Map(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push_str(",\n"); }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
#[macro_export]
macro_rules! ja { ($($x:expr),* $(,)?) => { $crate::json::J::Arr(vec![$($crate::json::J::from($x)),*]) } }
#[macro_export]
macro_rules! jo { ($($k:literal : $x:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k, $crate::json::J::from($x))),*]) } }
