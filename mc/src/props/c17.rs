//! Lists nest by their markers.
use super::*;
use crate::adoc::*;
use crate::engine::*;
use crate::html::{El, Node};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum B {
  Para(String),
  Literal(String),
  Example(Vec<B>),
  /// kind, items: principal text, blocks
  List(char, Vec<(String, Vec<B>)>),
}

fn show(bs: &[B]) -> String {
  bs.iter()
    .map(|b| match b {
      B::Para(t) => format!("p({t})"),
      B::Literal(t) => format!("lit({t})"),
      B::Example(b) => format!("ex({})", show(b)),
      B::List(k, items) => format!("{k}[{}]", items.iter().map(|(t, b)| format!("{t}{{{}}}", show(b))).collect::<Vec<_>>().join(" ")),
    })
    .collect::<Vec<_>>()
    .join(" ")
}

/// marker, kind and text of a line that starts a list item
fn marker(line: &str) -> Option<(&'static str, char, String)> {
  let t = line.trim_start();
  for m in ["*****", "****", "***", "**", "*", "-"] {
    if let Some(r) = t.strip_prefix(m) {
      if let Some(r) = r.strip_prefix(' ') {
        return Some((m, 'u', r.trim().into()));
      }
    }
  }
  for m in [".....", "....", "...", "..", "."] {
    if let Some(r) = t.strip_prefix(m) {
      if let Some(r) = r.strip_prefix(' ') {
        return Some((m, 'o', r.trim().into()));
      }
    }
  }
  for (end, m) in [(". ", "1."), (") ", "i)")] {
    if let Some((n, r)) = t.split_once(end) {
      let kind = if n.is_empty() || n.contains(' ') {
        continue;
      } else if n.chars().all(|c| c.is_ascii_digit()) && m == "1." {
        "1."
      } else if n.len() == 1 && n.chars().all(|c| c.is_ascii_lowercase()) && m == "1." {
        "a."
      } else if n.len() == 1 && n.chars().all(|c| c.is_ascii_uppercase()) && m == "1." {
        "A."
      } else if n.chars().all(|c| "ivx".contains(c)) && m == "i)" {
        "i)"
      } else if n.chars().all(|c| "IVX".contains(c)) && m == "i)" {
        "I)"
      } else {
        continue;
      };
      return Some((kind, 'o', r.trim().into()));
    }
  }
  for m in ["::::", ":::", "::", ";;"] {
    if let Some(i) = t.find(m) {
      let rest = &t[i + m.len()..];
      if i > 0 && (rest.is_empty() || rest.starts_with(' ')) && !t[..i].contains(' ') {
        return Some((m, 'd', format!("{}={}", &t[..i], rest.trim())));
      }
    }
  }
  None
}

struct P<'a> {
  lines: &'a [String],
  i: usize,
}

impl P<'_> {
  fn cur(&self) -> Option<&str> {
    self.lines.get(self.i).map(|s| s.as_str())
  }
  fn is_text(l: &str) -> bool {
    !l.is_empty() && l != "+" && marker(l).is_none() && l != "====" && !l.starts_with("//")
  }
  /// consecutive lines of text
  fn text(&mut self) -> String {
    self.para(true, false)
  }
  fn para(&mut self, in_list: bool, literal: bool) -> String {
    let mut v = vec![];
    while let Some(l) = self.cur() {
      if l.starts_with("//") && !literal {
        self.i += 1;
        continue;
      }
      let goes_on = !l.is_empty() && l != "====" && (!in_list || Self::is_text(l) || l.starts_with("//"));
      if !goes_on {
        break;
      }
      v.push(l.trim().to_string());
      self.i += 1;
    }
    v.join(" ").replace('*', "").split_whitespace().collect::<Vec<_>>().join(" ")
  }
  fn block(&mut self, open: Option<&mut Vec<&'static str>>) -> Option<B> {
    let l = self.cur()?.to_string();
    if l == "====" {
      self.i += 1;
      let end = (self.i..self.lines.len()).find(|k| self.lines[*k] == "====").unwrap();
      let inner: Vec<String> = self.lines[self.i..end].to_vec();
      self.i = end + 1;
      let mut p = P { lines: &inner, i: 0 };
      return Some(B::Example(p.blocks()));
    }
    let in_list = open.is_some();
    if marker(&l).is_some() {
      return Some(self.list(open.unwrap_or(&mut vec![])));
    }
    if l.starts_with(' ') {
      return Some(B::Literal(self.para(in_list, true)));
    }
    Some(B::Para(self.para(in_list, false)))
  }
  fn blocks(&mut self) -> Vec<B> {
    let mut out = vec![];
    loop {
      while self.cur().is_some_and(|l| l.is_empty() || l.starts_with("//")) {
        self.i += 1;
      }
      if self.cur().is_none() {
        return out;
      }
      out.extend(self.block(None));
    }
  }
  fn list(&mut self, open: &mut Vec<&'static str>) -> B {
    let (m, kind, _) = marker(self.cur().unwrap()).unwrap();
    open.push(m);
    note_state(&(open.clone(), self.i));
    let mut items = vec![];
    loop {
      let (m2, _, mut text) = marker(self.cur().unwrap()).unwrap();
      assert_eq!(m, m2);
      self.i += 1;
      let more = self.text();
      if !more.is_empty() {
        if !text.is_empty() && !text.ends_with('=') {
          text.push(' ');
        }
        text += &more;
      }
      let mut blocks = vec![];
      if text.ends_with('=') {
        // the text of a description may follow blank lines
        let k = (self.i..self.lines.len()).find(|k| !self.lines[*k].is_empty());
        if let Some(k) = k.filter(|k| Self::is_text(&self.lines[*k])) {
          self.i = k;
          text += &self.text();
        }
      }
      let sibling = self.rest_of_item(open, &mut blocks);
      items.push((text, blocks));
      if !sibling {
        break;
      }
    }
    open.pop();
    B::List(kind, items)
  }
  /// what is attached to an item; whether a sibling item follows
  fn rest_of_item(&mut self, open: &mut Vec<&'static str>, blocks: &mut Vec<B>) -> bool {
    loop {
      let start = self.i;
      let mut blanks = 0;
      while self.cur().is_some_and(|l| l.is_empty() || l.starts_with("//")) {
        blanks += self.cur().unwrap().is_empty() as usize;
        self.i += 1;
      }
      let Some(l) = self.cur() else {
        return false;
      };
      // a comment that follows blank lines ends all of the lists
      if self.lines[start..self.i].windows(2).any(|w| w[0].is_empty() && w[1].starts_with("//")) {
        self.i = start;
        return false;
      }
      if l == "+" {
        // blank lines before the continuation move on to the enclosing items
        if blanks > 0 && open.len() > 1 {
          self.i = start + 1;
          return false;
        }
        self.i += 1;
        // a continuation without a block
        if let Some((m, ..)) = self.cur().and_then(marker) {
          if open.contains(&m) {
            return open.last() == Some(&m);
          }
        }
        note_transition(&("attach", open.clone()));
        blocks.extend(self.block(Some(open)));
        continue;
      }
      if let Some((m, _, _)) = marker(l) {
        note_transition(&(m, open.clone()));
        if open.last() == Some(&m) {
          return true;
        }
        if open.contains(&m) {
          return false;
        }
        let b = self.list(open);
        blocks.push(b);
        continue;
      }
      if blanks > 0 && l.starts_with(' ') {
        blocks.push(B::Literal(self.para(true, true)));
        continue;
      }
      if blanks > 0 {
        self.i = start;
      }
      return false;
    }
  }
}

/// the block structure of the output
fn from_html(ns: &[Node]) -> Result<Vec<B>, String> {
  let mut out = vec![];
  let norm = |s: String| s.replace('*', "").split_whitespace().collect::<Vec<_>>().join(" ");
  for n in ns {
    let e = match n {
      Node::Text(t) if t.trim().is_empty() => continue,
      Node::El(e) => e,
      n => return Err(format!("unexpected {n:?}")),
    };
    let first = |e: &El, tag: &str| e.els().find(|k| k.tag == tag).cloned();
    if e.has_class("paragraph") {
      out.push(B::Para(norm(e.text())));
    } else if e.has_class("literalblock") {
      out.push(B::Literal(norm(e.text())));
    } else if e.has_class("exampleblock") {
      out.push(B::Example(from_html(&first(e, "div").ok_or("no content")?.kids)?));
    } else if e.has_class("ulist") || e.has_class("olist") {
      let k = if e.has_class("ulist") { 'u' } else { 'o' };
      let l = e.els().next().ok_or("no list")?.clone();
      let mut items = vec![];
      for li in l.els() {
        let mut kids = li.els();
        let p = kids.next().ok_or("no principal text")?;
        let blocks: Vec<Node> = kids.map(|e| Node::El(e.clone())).collect();
        items.push((norm(p.text()), from_html(&blocks)?));
      }
      out.push(B::List(k, items));
    } else if e.has_class("dlist") {
      let l = e.els().next().ok_or("no list")?.clone();
      let mut items: Vec<(String, Vec<B>)> = vec![];
      let mut has_dd = true;
      for d in l.els() {
        if d.tag == "dt" {
          items.push((format!("{}=", norm(d.text())), vec![]));
          has_dd = false;
        } else {
          if has_dd {
            return Err("two dd".into());
          }
          has_dd = true;
          let mut kids: Vec<Node> = d.els().map(|e| Node::El(e.clone())).collect();
          let last = items.last_mut().unwrap();
          if let Some(Node::El(p)) = kids.first() {
            if p.tag == "p" {
              last.0 += &norm(p.text());
              kids.remove(0);
            }
          }
          last.1 = from_html(&kids)?;
        }
      }
      out.push(B::List('d', items));
    } else {
      return Err(format!("unexpected {} {:?}", e.tag, e.attrs));
    }
  }
  Ok(out)
}

fn check(lines: &[String]) -> Verdict {
  let n = lines.len();
  for i in 0..n {
    if lines[i] == "+" {
      // a continuation that continues nothing, or with nothing
      let next = lines.get(i + 1);
      if i == 0 || lines[i - 1] == "+" || next.is_none_or(|l| l.is_empty() || l == "+" || l.starts_with("//") || l.starts_with(' ')) {
        return Verdict::Skip;
      }
    }
  }
  if lines.iter().filter(|l| *l == "====").count() % 2 == 1 {
    return Verdict::Skip;
  }
  let mut p = P { lines, i: 0 };
  let want = p.blocks();
  let doc = lines.iter().map(|l| format!("{l}\n")).collect::<String>();
  let html = Job::default().html(&doc, Be::Dr);
  let got = match crate::html::parse(&html).map_err(|e| e.to_string()).and_then(|n| from_html(&n)) {
    Ok(g) => g,
    Err(e) => return Verdict::bad(format!("{e}\n{html}")),
  };
  if got != want {
    return Verdict::bad(format!("got      {}\nexpected {}", show(&got), show(&want)));
  }
  Verdict::ok(want.iter().any(|b| matches!(b, B::List(..))), &show(&got))
}

/// `#` stands for a text of its own on each line
fn space(name: &str, toks: &'static [&'static str], lo: usize, hi: usize) -> Space {
  Space::new(
    name,
    seq_count(toks.len(), lo, hi),
    move |i| seq_decode(i, toks.len(), lo, hi).into_iter().enumerate().map(|(k, t)| toks[t].replace('#', &format!("w{k}"))).collect::<Vec<String>>(),
    |c| c.iter().map(|l| format!("{l}\n")).collect(),
    |c| check(c),
  )
}

const NEST: [&str; 8] = ["* #", "** #", "*** #", "- #", ". #", ".. #", "#:: d", "#::: d"];
const MIXED: [&str; 10] = ["* #", "** #", ". #", "#:: d", "#::: d", "", "#", "+", "  #", "// c"];
const ORDERED: [&str; 6] = ["1. #", "4. #", ". #", ".. #", "- #", ""];
const DLIST: [&str; 8] = ["#::", "#:::", "#;; d", "#:: d", "* #", "", "#", "+"];
const ATTACH: [&str; 7] = ["* #", "** #", ". #", "", "#", "+", "===="];

pub fn prop() -> Prop {
  Prop {
    id: "C17",
    level: "model_checking",
    rule: "every sequence of list lines up to the bound; nontrivial = with a list",
    assumptions: &[],
    spaces: |t| {
      vec![
        space("nesting", &NEST, 1, t.pick(6, 7)),
        space("mixed", &MIXED, 1, t.pick(5, 6)),
        space("ordered", &ORDERED, 1, t.pick(6, 8)),
        space("description", &DLIST, 1, t.pick(5, 6)),
        space("attached", &ATTACH, 1, t.pick(6, 8)),
      ]
    },
  }
}
