//! A very small JSON writer (no dependencies).
pub enum J {
  Null,
  Bool(bool),
  Int(i128),
  Str(String),
  Arr(Vec<J>),
  Obj(Vec<(&'static str, J)>),
  Map(Vec<(String, J)>),
}

impl J {
  pub fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
  }
  pub fn opt(x: Option<String>) -> J {
    match x {
      Some(s) => J::Str(s),
      None => J::Null,
    }
  }
  pub fn write(&self, o: &mut String) {
    match self {
      J::Null => o.push_str("null"),
      J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
      J::Int(i) => o.push_str(&i.to_string()),
      J::Str(s) => esc(s, o),
      J::Arr(v) => {
        o.push('[');
        for (i, x) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          x.write(o);
        }
        o.push(']');
      }
      J::Obj(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          esc(k, o);
          o.push(':');
          x.write(o);
        }
        o.push('}');
      }
      J::Map(v) => {
        o.push('{');
        for (i, (k, x)) in v.iter().enumerate() {
          if i > 0 {
            o.push(',');
          }
          esc(k, o);
          o.push(':');
          x.write(o);
        }
        o.push('}');
      }
    }
  }
}

fn esc(s: &str, o: &mut String) {
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
}
