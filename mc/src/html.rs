//! Strict tokenizer / tree builder for the HTML the backends emit.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum Node {
  El(El),
  Text(String),
  Comment(String),
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct El {
  pub tag: String,
  pub attrs: Vec<(String, String)>,
  pub kids: Vec<Node>,
}

const VOID: &[&str] = &[
  "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr", "param",
];

impl El {
  pub fn attr(&self, k: &str) -> Option<&str> {
    self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
  }
  pub fn classes(&self) -> Vec<&str> {
    self.attr("class").map(|c| c.split_whitespace().collect()).unwrap_or_default()
  }
  pub fn has_class(&self, c: &str) -> bool {
    self.classes().contains(&c)
  }
  pub fn els(&self) -> impl Iterator<Item = &El> {
    els(&self.kids)
  }
  pub fn text(&self) -> String {
    let mut s = String::new();
    text_of(&self.kids, &mut s);
    s
  }
  pub fn find_all<'a>(&'a self, f: &dyn Fn(&El) -> bool, out: &mut Vec<&'a El>) {
    find_all(&self.kids, f, out)
  }
}
pub fn els(ns: &[Node]) -> impl Iterator<Item = &El> {
  ns.iter().filter_map(|n| match n {
    Node::El(e) => Some(e),
    _ => None,
  })
}
pub fn find_all<'a>(ns: &'a [Node], f: &dyn Fn(&El) -> bool, out: &mut Vec<&'a El>) {
  for e in els(ns) {
    if f(e) {
      out.push(e);
    }
    find_all(&e.kids, f, out);
  }
}
pub fn select<'a>(ns: &'a [Node], f: impl Fn(&El) -> bool) -> Vec<&'a El> {
  let mut v = vec![];
  find_all(ns, &f, &mut v);
  v
}
pub fn text_of(ns: &[Node], out: &mut String) {
  for n in ns {
    match n {
      Node::Text(t) => out.push_str(t),
      Node::El(e) => text_of(&e.kids, out),
      Node::Comment(_) => {}
    }
  }
}

/// parse; Err describes the first well-formedness defect. Text and attribute
/// values are entity-decoded.
pub fn parse(src: &str) -> Result<Vec<Node>, String> {
  let b = src.as_bytes();
  let mut stack: Vec<El> = vec![El { tag: "#root".into(), attrs: vec![], kids: vec![] }];
  let mut i = 0;
  let ctx = |i: usize| {
    let mut lo = i.saturating_sub(40);
    let mut hi = (i + 40).min(src.len());
    while !src.is_char_boundary(lo) {
      lo -= 1;
    }
    while !src.is_char_boundary(hi) {
      hi += 1;
    }
    format!("near {:?}", &src[lo..hi])
  };
  while i < b.len() {
    if b[i] == b'<' {
      if src[i..].starts_with("<!--") {
        let Some(e) = src[i..].find("-->") else { return Err(format!("unterminated comment {}", ctx(i))) };
        stack.last_mut().unwrap().kids.push(Node::Comment(src[i + 4..i + e].into()));
        i += e + 3;
        continue;
      }
      if src[i..].to_ascii_lowercase().starts_with("<!doctype") {
        let Some(e) = src[i..].find('>') else { return Err("unterminated doctype".into()) };
        i += e + 1;
        continue;
      }
      if b.get(i + 1) == Some(&b'/') {
        let mut j = i + 2;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'-') {
          j += 1;
        }
        let name = &src[i + 2..j];
        if b.get(j) != Some(&b'>') || name.is_empty() {
          return Err(format!("malformed end tag {}", ctx(i)));
        }
        if stack.len() < 2 {
          return Err(format!("end tag </{name}> with nothing open {}", ctx(i)));
        }
        let el = stack.pop().unwrap();
        if el.tag != name {
          return Err(format!("end tag </{name}> closes <{}> {}", el.tag, ctx(i)));
        }
        stack.last_mut().unwrap().kids.push(Node::El(el));
        i = j + 1;
        continue;
      }
      let mut j = i + 1;
      while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'-') {
        j += 1;
      }
      let tag = src[i + 1..j].to_string();
      if tag.is_empty() {
        return Err(format!("stray '<' {}", ctx(i)));
      }
      let mut attrs: Vec<(String, String)> = vec![];
      let selfclose;
      loop {
        let ws0 = j;
        while j < b.len() && b[j].is_ascii_whitespace() {
          j += 1;
        }
        if j >= b.len() {
          return Err(format!("unterminated tag {}", ctx(i)));
        }
        if b[j] == b'>' {
          selfclose = false;
          j += 1;
          break;
        }
        if b[j] == b'/' && b.get(j + 1) == Some(&b'>') {
          selfclose = true;
          j += 2;
          break;
        }
        if ws0 == j {
          return Err(format!("no space before attribute {}", ctx(j)));
        }
        let n0 = j;
        while j < b.len() && (b[j].is_ascii_alphanumeric() || b"-_:.@".contains(&b[j])) {
          j += 1;
        }
        if j == n0 {
          return Err(format!("bad attribute name {}", ctx(j)));
        }
        let name = src[n0..j].to_string();
        let mut val = String::new();
        if b.get(j) == Some(&b'=') {
          j += 1;
          let q = match b.get(j) {
            Some(b'"') => b'"',
            Some(b'\'') => b'\'',
            _ => return Err(format!("unquoted attribute value {}", ctx(j))),
          };
          let v0 = j + 1;
          j = v0;
          while j < b.len() && b[j] != q {
            if b[j] == b'<' {
              return Err(format!("'<' in attribute value {}", ctx(j)));
            }
            j += 1;
          }
          if j >= b.len() {
            return Err(format!("unterminated attribute value {}", ctx(v0)));
          }
          val = decode(&src[v0..j])?;
          j += 1;
        }
        if attrs.iter().any(|(n, _)| *n == name) {
          return Err(format!("duplicate attribute {name} {}", ctx(i)));
        }
        attrs.push((name, val));
      }
      i = j;
      let void = VOID.contains(&tag.as_str());
      let raw = tag == "script" || tag == "style";
      let el = El { tag, attrs, kids: vec![] };
      if void || selfclose {
        stack.last_mut().unwrap().kids.push(Node::El(el));
      } else if raw {
        let close = format!("</{}>", el.tag);
        let Some(e) = src[i..].find(&close) else { return Err(format!("unterminated {}", el.tag)) };
        let mut el = el;
        el.kids.push(Node::Comment(src[i..i + e].into()));
        stack.last_mut().unwrap().kids.push(Node::El(el));
        i += e + close.len();
      } else {
        stack.push(el);
      }
    } else {
      let e = src[i..].find('<').map(|e| i + e).unwrap_or(b.len());
      let t = decode(&src[i..e])?;
      stack.last_mut().unwrap().kids.push(Node::Text(t));
      i = e;
    }
  }
  if stack.len() != 1 {
    let names: Vec<_> = stack.iter().skip(1).map(|e| e.tag.as_str()).collect();
    return Err(format!("unclosed elements {names:?}"));
  }
  Ok(stack.pop().unwrap().kids)
}

pub fn decode(s: &str) -> Result<String, String> {
  let mut out = String::with_capacity(s.len());
  let mut rest = s;
  while let Some(p) = rest.find('&') {
    out.push_str(&rest[..p]);
    rest = &rest[p..];
    let Some(e) = rest.find(';') else { return Err(format!("bare '&' in {s:?}")) };
    let name = &rest[1..e];
    let c = match name {
      "lt" => '<',
      "gt" => '>',
      "amp" => '&',
      "quot" => '"',
      "apos" => '\'',
      "nbsp" => '\u{a0}',
      _ if name.starts_with("#x") => u32::from_str_radix(&name[2..], 16)
        .ok()
        .and_then(char::from_u32)
        .ok_or_else(|| format!("bad entity &{name};"))?,
      _ if name.starts_with('#') => name[1..]
        .parse()
        .ok()
        .and_then(char::from_u32)
        .ok_or_else(|| format!("bad entity &{name};"))?,
      _ if !name.is_empty() && name.bytes().all(|b| b.is_ascii_alphanumeric()) => '\u{fffd}',
      _ => return Err(format!("bare '&' in {s:?}")),
    };
    out.push(c);
    rest = &rest[e + 1..];
  }
  out.push_str(rest);
  Ok(out)
}

/// visible text with all whitespace collapsed
pub fn visible_text(ns: &[Node]) -> String {
  let mut s = String::new();
  fn go(ns: &[Node], out: &mut String) {
    for n in ns {
      match n {
        Node::Text(t) => out.push_str(t),
        Node::El(e) => {
          go(&e.kids, out);
          if !["em", "strong", "code", "mark", "a", "span", "sub", "sup", "b", "i", "kbd", "u"].contains(&e.tag.as_str()) {
            out.push(' ');
          }
        }
        Node::Comment(_) => {}
      }
    }
  }
  go(ns, &mut s);
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}
