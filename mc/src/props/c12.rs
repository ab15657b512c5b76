//! Strict parsing rejects exactly what lenient parsing warns about; C13: where diagnostics point.
use super::c02::*;
use crate::adoc::*;
use crate::engine::*;

fn agree(doc: &str) -> Verdict {
  if !moderate(doc) {
    return Verdict::Skip;
  }
  let job = corpus_job();
  let lenient = job.render(doc, Be::Dr);
  let strict = Job { strict: true, ..job }.render(doc, Be::Dr);
  if lenient.html.is_none() {
    return Verdict::bad(format!("rejected without being strict: {:?}", lenient.diags));
  }
  match (&strict.html, lenient.diags.first()) {
    (Some(h), None) => {
      if Some(h) != lenient.html.as_ref() {
        return Verdict::bad(format!("accepted, but the output differs\n{h}\n{}", lenient.html.unwrap()));
      }
    }
    (Some(_), Some(d)) => return Verdict::bad(format!("accepted although there is a warning: {d:?}")),
    (None, None) => return Verdict::bad(format!("rejected although there is no warning: {:?}", strict.diags)),
    (None, Some(d)) => {
      if strict.diags.first() != Some(d) {
        return Verdict::bad(format!("rejected for {:?}, but the first warning is {d:?}", strict.diags));
      }
    }
  }
  Verdict::ok(!lenient.diags.is_empty(), &(lenient.diags, lenient.html))
}

pub fn prop() -> Prop {
  Prop {
    id: "C12",
    level: "model_checking",
    rule: "every document of the shared spaces, parsed strict and lenient; nontrivial = with at least one diagnostic",
    assumptions: &[],
    spaces: |t| corpus(t, agree),
  }
}

fn points(doc: &str) -> Verdict {
  if !moderate(doc) {
    return Verdict::Skip;
  }
  // an AsciiDoc cell made of the text of several files has no single origin,
  // and lines dropped from it are not counted
  if doc.contains("a|") && (doc.contains("include::") || doc.contains("//") || doc.contains("def::") || doc.contains("ifeval::")) {
    return Verdict::Skip;
  }
  let job = corpus_job();
  let out = job.render(doc, Be::Dr);
  let cells = doc.contains("a|") || doc.contains("*a");
  // the quotes of a CSV field are no part of the text of an AsciiDoc cell
  if cells && doc.contains(",===") {
    return Verdict::Skip;
  }
  for d in &out.diags {
    let text = match d.file.as_str() {
      "doc.adoc" => doc.to_string(),
      f => match job.files.get(&format!("/base/{f}")) {
        Some(b) => String::from_utf8(b.clone()).unwrap(),
        None => return Verdict::bad(format!("unknown file: {d:?}")),
      },
    };
    let lines: Vec<&str> = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l)).collect();
    let Some(line) = (d.line_num as usize).checked_sub(1).and_then(|n| lines.get(n)) else {
      return Verdict::bad(format!("no such line: {d:?}"));
    };
    // the first line of an AsciiDoc cell is the part of the line in the cell
    let in_cell = cells && line.contains(d.line.trim());
    if d.line.trim_end() != line.trim_end() && !in_cell {
      return Verdict::bad(format!("line {} is {line:?}: {d:?}", d.line_num));
    }
    let width = line.len() as u32;
    if d.start > width || d.start + d.width > width + 1 {
      return Verdict::bad(format!("the marked range exceeds the line: {d:?}"));
    }
    if d.message.is_empty() || d.width == 0 {
      return Verdict::bad(format!("nothing is marked: {d:?}"));
    }
  }
  Verdict::ok(!out.diags.is_empty(), &out.diags)
}

pub fn prop13() -> Prop {
  Prop {
    id: "C13",
    level: "model_checking",
    rule: "every document of the shared spaces; nontrivial = with at least one diagnostic",
    assumptions: &[],
    spaces: |t| {
      let mut s = corpus(t, points);
      let lines = |s: &[&str]| s.iter().map(|l| format!("{l}\n")).collect::<String>();
      s.push(seqs_with("shift", wide(), 1, 2, lines, shift));
      s.push(seqs_with("shift directives", &DIRECTIVES, 1, t.pick(3, 4), lines, shift));
      s.push(seqs_with("shift structure", &STRUCTURE, 1, t.pick(3, 4), lines, shift));
      s
    },
  }
}

/// Where the same lines stand makes no difference to what is reported of them,
/// besides the file and the line number.
fn shift(snippet: &str) -> Verdict {
  let doc = format!("x\n\n{snippet}");
  if !moderate(&doc) {
    return Verdict::Skip;
  }
  let job = corpus_job();
  let base = job.render(&doc, Be::Dr);
  // what an unclosed conditional hides depends on what follows
  let key = |d: &Diag, by: u32, from: &str, strip: bool| {
    let own = d.file == from;
    (
      d.message.clone(),
      d.line.clone(),
      d.start,
      d.width,
      if own { d.line_num.wrapping_sub(by) } else { d.line_num },
      if own && strip { "doc.adoc".to_string() } else { d.file.clone() },
    )
  };
  let want: Vec<_> = base.diags.iter().map(|d| key(d, 0, "doc.adoc", true)).collect();
  let at = |pre: &str, lines: u32| (job.clone(), format!("{pre}{doc}"), lines, "doc.adoc".to_string());
  let inc = |files: &[(&str, String)], main: &str, name: &str| {
    let fs: Vec<(&str, &str)> = files.iter().map(|(a, b)| (*a, b.as_str())).collect();
    let mut j = job.clone();
    for (p, b) in fs {
      std::rc::Rc::make_mut(&mut j.files).insert(p.to_string(), b.as_bytes().to_vec());
    }
    (j, main.to_string(), 0, name.to_string())
  };
  let cases = vec![
    at("y\n\n", 2),
    at(":y: z\n\ny\n\n", 4),
    at("y\n\nifdef::zz[]\nhidden\n\nhidden\nendif::[]\n\n", 8),
    at("y\n\nifndef::zz[]\nseen\nendif::[]\n\n", 6),
    at("y\n\n////\n{nope}\n\n////\n\n", 7),
    at("y\n\n:w: a \\\n  b\n\n", 5),
    at("include::plain.adoc[]\n\n", 2),
    at("....\ninclude::plain.adoc[]\n....\n\ny\n\n", 6),
    inc(&[("/base/snip.adoc", doc.clone())], "include::snip.adoc[]\n", "snip.adoc"),
    inc(
      &[("/base/snip.adoc", doc.clone()), ("/base/outer.adoc", "y\n\ninclude::snip.adoc[]\n".into())],
      "y\n\ninclude::outer.adoc[]\n",
      "snip.adoc",
    ),
  ];
  for (j, text, by, name) in cases {
    let mut j = j;
    std::rc::Rc::make_mut(&mut j.files).insert("/base/plain.adoc".into(), b"one\n\ntwo\n".to_vec());
    let out = j.render(&text, Be::Dr);
    let got: Vec<_> = out.diags.iter().map(|d| key(d, by, &name, true)).collect();
    if got != want {
      return Verdict::bad(format!("diagnostics of {text:?}:\n got {got:?}\nwant {want:?}"));
    }
  }
  Verdict::ok(!want.is_empty(), &want)
}
