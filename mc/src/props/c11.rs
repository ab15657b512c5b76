//! How lines end does not matter.
use super::c02::*;
use crate::adoc::*;
use crate::engine::*;

/// the same document with other line ends
const VARIANTS: [(&str, fn(&str) -> String); 6] = [
  ("CRLF", |d| d.replace('\n', "\r\n")),
  ("with a final newline", |d| if d.ends_with('\n') { d.to_string() } else { format!("{d}\n") }),
  ("without a final newline", |d| d.strip_suffix('\n').unwrap_or(d).to_string()),
  ("with blank lines at the end", |d| format!("{}\n\n\n", d.strip_suffix('\n').unwrap_or(d))),
  ("with whitespace in blank lines", blank_whitespace),
  ("with spaces at line ends", trail_whitespace),
];

fn trail_whitespace(d: &str) -> String {
  let mut out = String::new();
  for (i, l) in d.split_inclusive('\n').enumerate() {
    match l.strip_suffix('\n') {
      Some(t) if !t.trim().is_empty() && !t.ends_with([' ', '\t']) => out += &format!("{t}{}\n", [" ", "  "][i % 2]),
      _ => out += l,
    }
  }
  out
}

fn blank_whitespace(d: &str) -> String {
  let mut out: Vec<&str> = d.split('\n').collect();
  let n = out.len();
  for (i, l) in out.iter_mut().enumerate() {
    if l.is_empty() && i + 1 < n {
      *l = [" ", "\t", "  \t "][i % 3];
    }
  }
  out.join("\n")
}

fn same(doc: &str) -> Verdict {
  // a wrapped attribute value at the very end continues with the end itself
  if !moderate(doc) || doc.contains('\r') || doc.trim_end_matches('\n').ends_with(" \\") {
    return Verdict::Skip;
  }
  let job = corpus_job();
  let plain = job.render(doc, Be::Dr);
  for (name, f) in VARIANTS {
    let other = f(doc);
    if other == doc {
      continue;
    }
    // whitespace at the very end of a document counts
    if (name.contains("final newline") || name == VARIANTS[3].0) && doc.trim_end_matches('\n').ends_with([' ', '\t']) {
      continue;
    }
    // a wrapped entry that is text here
    if name == VARIANTS[5].0 && plain.html.as_ref().is_some_and(|h| h.contains("\\\n")) {
      continue;
    }
    if name == VARIANTS[4].0 && doc.contains("\\\n\n") {
      continue;
    }
    // at the end of something that is still open, the blank lines are part of it
    if (name == VARIANTS[3].0 || doc.ends_with("\n\n")) && name != "CRLF" && plain.diags.iter().any(|d| d.message.contains("never closed") || d.message.contains("nclosed")) {
      continue;
    }
    let mut out = job.render(&other, Be::Dr);
    // a browser reads CRLF as LF
    out.html = out.html.map(|h| h.replace("\r\n", "\n"));
    if out.html != plain.html {
      return Verdict::bad(format!("{name}:\n{}\ninstead of\n{}", out.html.unwrap_or_default(), plain.html.unwrap_or_default()));
    }
    let msgs = |o: &Out| o.diags.iter().map(|d| (d.line_num, d.message.clone())).collect::<Vec<_>>();
    if name == "CRLF" && msgs(&out) != msgs(&plain) {
      return Verdict::bad(format!("{name}: diagnostics {:?} instead of {:?}", out.diags, plain.diags));
    }
  }
  Verdict::ok(true, &plain.html)
}

pub fn prop() -> Prop {
  Prop {
    id: "C11",
    level: "model_checking",
    rule: "every document of the shared spaces with six kinds of line ends",
    assumptions: &[],
    spaces: |t| corpus(t, same),
  }
}
