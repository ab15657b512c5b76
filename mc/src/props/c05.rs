//! Includes are equivalent to pasting the file in place.
use super::*;
use crate::adoc::*;
use crate::engine::*;
use std::collections::BTreeMap;

pub type Files = BTreeMap<String, String>;

/// independent path arithmetic: absolute, '.'/'..' resolved
fn normalize(p: &str) -> String {
  let mut out: Vec<&str> = vec![];
  for seg in p.split('/') {
    match seg {
      "" | "." => {}
      ".." => {
        out.pop();
      }
      s => out.push(s),
    }
  }
  format!("/{}", out.join("/"))
}
fn dir(p: &str) -> &str {
  &p[..p.rfind('/').unwrap()]
}

fn lines_of(s: &str) -> Vec<String> {
  let mut v: Vec<String> = s.split('\n').map(|l| l.trim_end_matches([' ', '\t', '\r']).to_string()).collect();
  if v.last().is_some_and(|l| l.is_empty()) {
    v.pop();
  }
  v
}

#[derive(Default)]
pub struct Flat {
  pub lines: Vec<String>,
  /// include lines refused because of the depth limit
  pub refused: usize,
  pub opened: Vec<String>,
}

pub struct Ref<'a> {
  pub files: &'a Files,
  pub abs_max: u64,
}

impl Ref<'_> {
  /// paste `path` (depth = number of open files below it, limit = depth at which includes are refused)
  pub fn paste(&self, lines: &[String], rel_to: &str, depth: u64, limit: u64, offset: i64, out: &mut Flat) {
    for l in lines {
      let Some(rest) = l.strip_prefix("include::") else {
        let n = l.len() - l.trim_start_matches('=').len();
        if offset != 0 && n > 0 && l[n..].starts_with(' ') {
          out.lines.push(format!("{}{}", "=".repeat((n as i64 + offset).max(1) as usize), &l[n..]));
        } else {
          out.lines.push(l.clone());
        }
        continue;
      };
      if depth >= limit {
        out.refused += 1;
        out.lines.push(format!("\\{l}"));
        note_transition(&("refused", depth, limit));
        continue;
      }
      let (target, attrs) = rest.split_once('[').unwrap();
      let attrs = attrs.trim_end_matches(']');
      let path = if target.starts_with('/') { target.to_string() } else { format!("{rel_to}/{target}") };
      let path = normalize(&path);
      out.opened.push(path.clone());
      let Some(src) = self.files.get(&path) else {
        if !attrs.contains("opts=optional") {
          out.lines.push(format!("\\{l}"));
        }
        continue;
      };
      let (mut limit2, mut off2) = (limit, offset);
      let mut sel: Option<(usize, usize)> = None;
      for a in attrs.split(',') {
        match a.split_once('=') {
          Some(("depth", n)) => {
            let n: u64 = n.parse().unwrap();
            limit2 = (depth + 1 + n).min(self.abs_max);
          }
          Some(("leveloffset", n)) => {
            let v: i64 = n.trim_start_matches('+').parse().unwrap();
            off2 = if n.starts_with(['+', '-']) { offset + v } else { v };
          }
          Some(("lines", n)) => {
            let (a, b) = n.split_once("..").unwrap();
            sel = Some((a.parse().unwrap(), b.parse().unwrap_or(usize::MAX)));
          }
          _ => {}
        }
      }
      let ls: Vec<String> = lines_of(src)
        .into_iter()
        .enumerate()
        .filter(|(i, _)| sel.is_none_or(|(a, b)| (a..=b).contains(&(i + 1))))
        .map(|(_, l)| l)
        .collect();
      note_transition(&(target, attrs, depth));
      self.paste(&ls, dir(&path), depth + 1, limit2, off2, out);
    }
  }
}

pub fn job_for(files: &Files) -> Job {
  let v: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
  Job { normalize_paths: true, ..Job::default().with_files(&v) }
}

struct Case {
  main: Vec<String>,
  files: Files,
  max: Option<u64>,
}
impl Case {
  fn doc(&self) -> String {
    self.main.iter().map(|l| format!("{l}\n")).collect()
  }
  fn describe(&self) -> String {
    let f: String = self.files.iter().map(|(k, v)| format!("=== {k}\n{v}<<<\n")).collect();
    format!("{}{}{f}", self.max.map_or(String::new(), |m| format!("max-include-depth={m}\n")), self.doc())
  }
  fn check(&self, strict_ok: bool) -> Verdict {
    let mut job = job_for(&self.files);
    if let Some(m) = self.max {
      job = job.attr("max-include-depth", m.to_string(), true);
    }
    let max = self.max.unwrap_or(64);
    let mut flat = Flat::default();
    Ref { files: &self.files, abs_max: max }.paste(&self.main, "/base", 0, max, 0, &mut flat);
    let pasted: String = flat.lines.iter().map(|l| format!("{l}\n")).collect();
    note_state(&pasted);
    // a title deeper than level 5 can't be pasted
    if flat.lines.iter().any(|l| l.starts_with("=======")) {
      return Verdict::Skip;
    }
    for be in BACKENDS {
      let a = job.render(&self.doc(), be);
      let b = job.render(&pasted, be);
      if flat.refused > 0 {
        let n = a.diags.iter().filter(|d| d.message.starts_with("Maximum include depth")).count();
        if n != flat.refused {
          return Verdict::bad(format!("{n} includes refused because of the depth limit, expected {}", flat.refused));
        }
      } else if strict_ok && a.diags.len() != b.diags.len() {
        return Verdict::bad(format!("diagnostics {:?} vs {:?} when pasted", a.diags, b.diags));
      }
      if a.html != b.html {
        return Verdict::bad(format!("include: {:?}\npasted ({pasted:?}): {:?}", a.html, b.html));
      }
    }
    let log = job.log.borrow();
    let opened: Vec<String> = flat.opened.iter().chain(&flat.opened).cloned().collect();
    if !strict_ok && *log != opened {
      return Verdict::bad(format!("files read {:?}, expected {:?}", *log, opened));
    }
    Verdict::ok(!flat.opened.is_empty(), &(pasted, flat.refused))
  }
}

const MAIN: [&str; 16] = [
  "include::a.adoc[]", "alpha", "", "include::a.adoc[lines=2..]", "* item", "+", "----", "== Sect", "include::b.adoc[]",
  "====", "|===", "|cell {att}", "[quote]", ".Title", "// comment", ":att: val",
];
const FA: [&str; 12] =
  ["beta", "", "* nested", "include::b.adoc[]", "+", "----", "=== Sub", "|cell b {att}", "====", ":att: other", "// remark", "|==="];
const FB: [&str; 6] = ["gamma\n", "", "\ngamma", "* deep\n\n", "----\n", ":att: b\n"];

fn paste_space(name: &'static str, nmain: usize, na: usize, amain: usize, afa: usize) -> Space {
  let nm = seq_count(amain, 1, nmain);
  let nf = seq_count(afa, 0, na);
  Space::new(
    name,
    nm * nf * FB.len() as u64 * 2,
    move |i| {
      let mut r = Radix::new(i);
      let b = FB[r.take(FB.len())];
      let nl = r.take(2);
      let rest = i / (FB.len() as u64 * 2);
      let main = seq_decode(rest % nm, amain, 1, nmain).into_iter().map(|k| MAIN[k].to_string()).collect();
      let mut a = seq_decode(rest / nm, afa, 0, na).into_iter().map(|k| FA[k]).collect::<Vec<_>>().join("\n");
      if nl == 1 {
        a.push('\n');
      }
      let files = [("/base/a.adoc".to_string(), a), ("/base/b.adoc".to_string(), b.to_string())].into();
      Case { main, files, max: None }
    },
    |c| c.describe(),
    |c| {
      if !c.main.iter().any(|l| l.starts_with("include")) {
        return Verdict::Skip;
      }
      c.check(true)
    },
  )
}

const TARGETS: [&str; 9] =
  ["a.adoc", "d/a.adoc", "../a.adoc", "d/e/a.adoc", "./a.adoc", "/base/d/a.adoc", "d/../a.adoc", "e/a.adoc", "zz.adoc"];

/// main -> two includes, every file includes (via {attributes}) further files
fn paths_space(second: bool) -> Space {
  let n = TARGETS.len() as u64;
  let n2 = if second { n } else { 1 };
  Space::new(
    "relative paths",
    n * n * n * n * n2 * 4,
    move |i| {
      let mut r = Radix::new(i);
      let t: Vec<usize> = (0..4).map(|_| r.take(TARGETS.len())).collect();
      let s = if second { r.take(TARGETS.len()) } else { 0 };
      let srcdir = r.take(2);
      let opt = r.take(2);
      (t, s, srcdir, opt)
    },
    |(t, s, srcdir, opt)| format!("{:?} then {} (document in {srcdir}, optional {opt})", t.iter().map(|k| TARGETS[*k]).collect::<Vec<_>>(), TARGETS[*s]),
    |(t, s, srcdir, opt)| {
      let o = if *opt == 1 { "opts=optional" } else { "" };
      let mut files = Files::new();
      let paths = ["/base/a.adoc", "/base/d/a.adoc", "/base/d/e/a.adoc", "/base/e/a.adoc", "/a.adoc"];
      for (k, p) in paths.iter().enumerate() {
        // the chain is bounded by max-include-depth
        let inc = if k % 2 == 0 { [t[1], t[2]] } else { [t[2], t[3]] };
        let (x, y) = (TARGETS[inc[0]], TARGETS[inc[1]]);
        files.insert(p.to_string(), format!("in{k}\n\ninclude::{x}[{o}]\n\nmid{k}\n\ninclude::{y}[{o}]\n\nend{k}\n"));
      }
      let main = format!("m1\n\ninclude::{}[{o}]\n\nm2\n\ninclude::{}[{o}]\n\nm3\n", TARGETS[t[0]], TARGETS[*s]);
      let mut job = job_for(&files).attr("max-include-depth", "2", true);
      // relative targets of the primary document are resolved against the base directory
      job.src = Src::File(if *srcdir == 0 { "/base/doc.adoc" } else { "/base/d/doc.adoc" }.into());
      let mut flat = Flat::default();
      let m: Vec<String> = lines_of(&main);
      Ref { files: &files, abs_max: 2 }.paste(&m, "/base", 0, 2, 0, &mut flat);
      let html = job.html(&main, Be::Dr);
      let log = job.log.borrow();
      if *log != flat.opened {
        return Verdict::bad(format!("files asked for {:?}, expected {:?}", *log, flat.opened));
      }
      let want: Vec<&str> = flat
        .lines
        .iter()
        .filter(|l| !l.starts_with('\\') && !l.is_empty())
        .map(|s| s.as_str())
        .collect();
      let got: Vec<String> =
        words(&html).into_iter().filter(|w| ["in", "mid", "end", "m"].iter().any(|p| w.strip_prefix(p).is_some_and(|d| d.parse::<u8>().is_ok()))).collect();
      if got != want {
        return Verdict::bad(format!("text {got:?}, expected {want:?}"));
      }
      note_state(&*log);
      Verdict::ok(true, &flat.opened)
    },
  )
}

const DEPTHS: [&str; 5] = ["", "depth=0", "depth=1", "depth=2", "depth=9"];

/// a chain of files each including up to two others, with depth= limits, after n sibling includes
fn depth_space(siblings: Vec<usize>) -> Space {
  let nd = DEPTHS.len() as u64;
  let ns = siblings.len() as u64;
  Space::new(
    "include depth",
    nd * nd * nd * nd * 6 * ns,
    move |i| {
      let mut r = Radix::new(i);
      let d: Vec<usize> = (0..4).map(|_| r.take(DEPTHS.len())).collect();
      let max = [None, Some(1), Some(2), Some(3), Some(4), Some(70)][r.take(6)];
      let sib = siblings[r.take(siblings.len())];
      let mut files = Files::new();
      files.insert("/base/s.adoc".into(), "sib\n".into());
      files.insert("/base/a.adoc".into(), format!("a1\n\ninclude::b.adoc[{}]\n\na2\n\ninclude::c.adoc[]\n\na3\n", DEPTHS[d[1]]));
      files.insert("/base/b.adoc".into(), format!("b1\n\ninclude::s.adoc[{}]\n\ninclude::c.adoc[{}]\n\nb2\n", DEPTHS[d[3]], DEPTHS[d[2]]));
      files.insert("/base/c.adoc".into(), "c1\n\ninclude::s.adoc[]\n\ninclude::e.adoc[]\n\nc2\n".into());
      files.insert("/base/e.adoc".into(), "e1\n\ninclude::s.adoc[]\n\ne2\n".into());
      let mut main = vec![];
      for _ in 0..sib {
        main.push("include::s.adoc[]".to_string());
        main.push("".to_string());
      }
      for l in [&format!("include::a.adoc[{}]", DEPTHS[d[0]]), "", "m", "", "include::b.adoc[]", "", "end"] {
        main.push(l.to_string());
      }
      Case { main, files, max }
    },
    |c| c.describe(),
    |c| c.check(false),
  )
}

const OFFS: [&str; 7] = ["", "leveloffset=+1", "leveloffset=+2", "leveloffset=-1", "leveloffset=1", "leveloffset=0", "leveloffset=+1,opts=optional"];

fn offset_space(deep: bool) -> Space {
  let n = OFFS.len() as u64;
  Space::new(
    "nested leveloffset",
    n * n * n * 4 * 4 * if deep { n } else { 1 },
    move |i| {
      let mut r = Radix::new(i);
      let o: Vec<&str> = (0..3).map(|_| OFFS[r.take(OFFS.len())]).collect();
      let ha = ["= A", "== A", "=== A", "text"][r.take(4)];
      let hb = ["= B", "== B", "=== B", "[discrete]\n== B"][r.take(4)];
      let o4 = if deep { OFFS[r.take(OFFS.len())] } else { "" };
      let mut files = Files::new();
      files.insert("/base/a.adoc".into(), format!("{ha}\n\na1\n\ninclude::b.adoc[{}]\n\n== A2\n\na2\n", o[1]));
      files.insert("/base/b.adoc".into(), format!("{hb}\n\nb1\n\ninclude::c.adoc[{}]\n\n== B2\n", o[2]));
      files.insert("/base/c.adoc".into(), "== C\n\nc1\n".into());
      let main = ["= Doc", "", "== M1", "", &format!("include::a.adoc[{}]", o[0]), "", "== M2", "", &format!("include::c.adoc[{o4}]"), "", "== M3", "", "m"]
        .iter()
        .map(|s| s.to_string())
        .collect();
      Case { main, files, max: None }
    },
    |c| c.describe(),
    |c| c.check(true),
  )
}

pub fn prop() -> Prop {
  Prop {
    id: "C05",
    level: "model_checking",
    rule: "every document and included-file content up to the bound x file endings; every chain of relative targets; \
           every combination of depth limits and level offsets; nontrivial = a file is included; \
           distinct = distinct pasted text",
    assumptions: &["the reference pastes text recursively; no conditional or comment block spans a file boundary in the leveloffset space"],
    spaces: |t| {
      vec![
        paste_space("pasted includes", t.pick(3, 4), t.pick(2, 2), t.pick(11, 13), t.pick(7, 9)),
        paste_space("pasted includes, deep file", 2, t.pick(3, 3), t.pick(12, 16), t.pick(9, 12)),
        paths_space(t.pick(false, true)),
        depth_space(t.pick(vec![0, 2, 66], vec![0, 1, 2, 3, 63, 64, 66, 130])),
        offset_space(t.pick(false, true)),
      ]
    },
  }
}
