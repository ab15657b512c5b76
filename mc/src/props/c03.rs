//! Include tag selection against the reference tag-filter algorithm.
use crate::adoc::*;
use crate::engine::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum L {
  Start(usize),
  End(usize),
}
const TAGS: [&str; 3] = ["a", "b", "c-1"];

/// outcome of the reference filter
struct Sel {
  lines: Vec<usize>,
  /// 0-based line index of a diagnostic a strict parse must stop at
  err: Option<ErrAt>,
}
#[derive(Debug, PartialEq, Clone, Copy)]
enum ErrAt {
  FileLine(usize),
  Directive,
}

fn entries(sel: &str) -> Vec<(String, bool)> {
  let mut v: Vec<(String, bool)> = vec![];
  for e in sel.split([',', ';']).map(|s| s.trim()) {
    if e.is_empty() || e == "!" {
      continue;
    }
    let (k, val) = match e.strip_prefix('!') {
      Some(k) => (k, false),
      None => (e, true),
    };
    match v.iter_mut().find(|(n, _)| n == k) {
      Some(x) => x.1 = val,
      None => v.push((k.to_string(), val)),
    }
  }
  v
}

/// the documented filter: an explicit stack machine over the file's lines
fn reference(sel: &str, lines: &[(usize, Option<L>)]) -> Option<Sel> {
  let mut tags = entries(sel);
  if tags.is_empty() {
    return None;
  }
  let mut take = |k: &str| {
    let i = tags.iter().position(|(n, _)| n == k)?;
    Some(tags.remove(i).1)
  };
  let first_is_star = entries(sel)[0].0 == "*";
  let mut wildcard: Option<bool> = None;
  let base;
  if let Some(all) = take("**") {
    base = all;
    if let Some(w) = take("*") {
      wildcard = Some(w);
    } else if !all && tags.first().is_some_and(|t| !t.1) {
      wildcard = Some(true);
    }
  } else if let Some(w) = take("*") {
    wildcard = Some(w);
    base = if first_is_star { !w } else { false };
  } else {
    base = !tags.iter().any(|t| t.1);
  }
  let mut select = base;
  let mut stack: Vec<(usize, bool, usize)> = vec![];
  let mut out = vec![];
  let mut err = None;
  let mut seen: Vec<usize> = vec![];
  let named = |t: usize| tags.iter().find(|(n, _)| n == TAGS[t]).map(|x| x.1);
  let mut note = |e: &mut Option<ErrAt>, i: usize| {
    if e.is_none() {
      *e = Some(ErrAt::FileLine(i))
    }
  };
  for (i, l) in lines {
    note_transition(&(&stack, select, l.map(|l| format!("{l:?}"))));
    match l {
      None => {
        if select {
          out.push(*i);
        }
      }
      Some(L::End(t)) => {
        if stack.last().is_some_and(|s| s.0 == *t) {
          stack.pop();
          select = stack.last().map_or(base, |s| s.1);
        } else if named(*t) == Some(true) {
          note(&mut err, *i);
        }
      }
      Some(L::Start(t)) => {
        if let Some(v) = named(*t) {
          select = v;
          seen.push(*t);
          stack.push((*t, select, *i));
        } else if let Some(w) = wildcard {
          select = if !stack.is_empty() && !select { false } else { w };
          stack.push((*t, select, *i));
        }
      }
    }
    note_state(&(&stack, select));
  }
  if let Some(s) = stack.iter().rev().find(|s| named(s.0) == Some(true)) {
    note(&mut err, s.2);
  }
  if err.is_none() && tags.iter().any(|(n, v)| *v && !seen.iter().any(|s| TAGS[*s] == n)) {
    err = Some(ErrAt::Directive);
  }
  Some(Sel { lines: out, err })
}

const STYLES: [(&str, &str); 4] = [("# ", ""), ("// ", ""), ("<!-- ", " -->"), ("", "")];

fn file(seq: &[L], style: usize) -> (String, Vec<(usize, Option<L>)>) {
  let (pre, post) = STYLES[style];
  let mut s = String::new();
  let mut v = vec![];
  let mut n = 0;
  let mut content = |s: &mut String, v: &mut Vec<(usize, Option<L>)>, n: &mut usize| {
    s.push_str(&format!("line{n}\n", n = *n));
    v.push((*n, None));
    *n += 1;
  };
  content(&mut s, &mut v, &mut n);
  for l in seq {
    match l {
      L::Start(t) => s.push_str(&format!("{pre}tag::{}[]{post}\n", TAGS[*t])),
      L::End(t) => s.push_str(&format!("{pre}end::{}[]{post}\n", TAGS[*t])),
    }
    v.push((n, Some(*l)));
    n += 1;
    content(&mut s, &mut v, &mut n);
  }
  (s, v)
}

/// every well-nested sequence of up to `pairs` regions over `nt` tags
fn nested(pairs: usize, nt: usize) -> Vec<Vec<L>> {
  let mut out: Vec<Vec<L>> = vec![];
  fn go(cur: &mut Vec<L>, open: &mut Vec<usize>, left: usize, nt: usize, out: &mut Vec<Vec<L>>) {
    if open.is_empty() {
      out.push(cur.clone());
    }
    if let Some(t) = open.pop() {
      cur.push(L::End(t));
      go(cur, open, left, nt, out);
      cur.pop();
      open.push(t);
    }
    if left > 0 {
      for t in 0..nt {
        cur.push(L::Start(t));
        open.push(t);
        go(cur, open, left - 1, nt, out);
        open.pop();
        cur.pop();
      }
    }
  }
  go(&mut vec![], &mut vec![], pairs, nt, &mut out);
  out.sort_by_key(|s| s.len());
  out
}

#[derive(Clone)]
struct Case {
  file: String,
  lines: Vec<(usize, Option<L>)>,
  sel: String,
  single: bool,
}

impl Case {
  fn directive(&self) -> String {
    if self.single {
      format!("include::f.txt[tag={}]", self.sel)
    } else {
      format!("include::f.txt[tags=\"{}\"]", self.sel)
    }
  }
  fn doc(&self) -> String {
    format!("before\n\n----\n{}\n----\n\nafter\n", self.directive())
  }
  fn describe(&self) -> String {
    format!("{} with f.txt = {:?}", self.directive(), self.file)
  }
  fn check(&self) -> Verdict {
    let Some(want) = reference(&self.sel, &self.lines) else { return Verdict::Skip };
    let files = [("/base/f.txt", self.file.as_str())];
    let loose = Job::default().with_files(&files).render(&self.doc(), Be::Dr);
    let Some(html) = loose.html else { return Verdict::bad("non-strict parse was rejected") };
    // selection after a mismatched end is not specified
    let mismatch = matches!(want.err, Some(ErrAt::FileLine(n)) if matches!(self.lines[n].1, Some(L::End(_))));
    if !mismatch {
      let got = super::words(&html);
      let mut exp = vec!["before".to_string()];
      exp.extend(want.lines.iter().map(|n| format!("line{n}")));
      exp.push("after".into());
      if got != exp {
        return Verdict::bad(format!("got {got:?}, model says {exp:?}"));
      }
    }
    let strict = Job::strict().with_files(&files).render(&self.doc(), Be::Dr);
    match (want.err, &strict.html) {
      (None, Some(_)) => {}
      (None, None) => return Verdict::bad(format!("strict parse rejected: {:?}", strict.diags)),
      (Some(e), Some(_)) => return Verdict::bad(format!("strict parse accepted, model expects a diagnostic at {e:?}")),
      (Some(ErrAt::Directive), None) => {
        if strict.diags.len() != 1 || strict.diags[0].line_num != 4 || !strict.diags[0].file.ends_with("doc.adoc") {
          return Verdict::bad(format!("diagnostic not at the include directive: {:?}", strict.diags));
        }
      }
      (Some(ErrAt::FileLine(n)), None) => {
        let d = &strict.diags[0];
        if d.line_num != n as u32 + 1 || !d.file.ends_with("f.txt") {
          return Verdict::bad(format!("diagnostic {d:?} is not at line {} of f.txt", n + 1));
        }
      }
    }
    Verdict::ok(self.lines.len() > 1, &(&want.lines, &want.err.map(|e| format!("{e:?}")), &self.sel))
  }
}

const SELS: [&str; 9] = ["a", "b", "!a", "!b", "*", "!*", "**", "!**", "zz"];

fn sel_list(s: &[usize]) -> Option<String> {
  // the same name twice is not a selection list
  let mut names: Vec<&str> = s.iter().map(|k| SELS[*k].trim_start_matches('!')).collect();
  names.sort();
  let n = names.len();
  names.dedup();
  // `**` together with a positive tag is redundant and unspecified upstream
  if s.iter().any(|k| SELS[*k] == "**") && s.iter().any(|k| ["a", "b", "zz"].contains(&SELS[*k])) {
    return None;
  }
  // contradictory: `!**;!a` means "every other tag", `!*` means "no other tag"
  let has = |e: &str| s.iter().any(|k| SELS[*k] == e);
  let pos = has("a") || has("b") || has("zz");
  let neg = has("!a") || has("!b");
  if has("!**") && neg && (has("!*") || pos) {
    return None;
  }
  (n == names.len()).then(|| s.iter().map(|k| SELS[*k]).collect::<Vec<_>>().join(";"))
}

/// what is and what is not a tag directive line
const SYNTAX: [(&str, bool); 22] = [
  ("# tag::a[]", true),
  ("tag::a[]", true),
  ("#tag::a[]", true),
  ("// tag::a[]", true),
  ("/* tag::a[] */", true),
  ("<!-- tag::a[] -->", true),
  ("<!--tag::a[]-->", false),
  ("# tag::a[] rest", true),
  ("# tag::a[] ", true),
  ("  # tag::a[]", true),
  ("(tag::a[]", true),
  ("code # tag::a[]", true),
  ("# tag::a[]x", false),
  ("# xtag::a[]", false),
  ("# tag::a[x]", false),
  ("# tag::[]", false),
  ("# tag:a[]", false),
  ("# tag::a []", false),
  ("# tag::a", false),
  ("# tag::b[]", false),
  ("# TAG::a[]", false),
  ("# _tag::a[]", false),
];

fn syntax() -> Space {
  let exts = ["txt", "rb", "adoc"];
  Space::new(
    "directive line syntax",
    (SYNTAX.len() * exts.len() * 3) as u64,
    move |i| {
      let mut r = Radix::new(i);
      let (line, is) = *r.pick(&SYNTAX);
      let ext = *r.pick(&exts);
      let nl = *r.pick(&["\n", "\r\n", "\n\n"]);
      (format!("line0{nl}{line}{nl}line1{nl}{}{nl}line2{nl}", line.replace("tag", "end")), is, ext)
    },
    |c| format!("include::f.{}[tag=a] with {:?}", c.2, c.0),
    |c| {
      let path = format!("/base/f.{}", c.2);
      let html = Job::default()
        .with_files(&[(path.as_str(), c.0.as_str())])
        .html(&format!("before\n\n----\ninclude::f.{}[tag=a]\n----\n\nafter\n", c.2), Be::Dr);
      let got = super::words(&html);
      let want: &[&str] = if c.1 { &["before", "line1", "after"] } else { &["before", "after"] };
      if got != want {
        return Verdict::bad(format!("got {got:?}, expected {want:?}"));
      }
      Verdict::ok(true, &(c.1, c.2))
    },
  )
}

pub fn prop() -> Prop {
  Prop {
    id: "C03",
    level: "model_checking",
    rule: "every well-nested arrangement of tagged regions up to the bound (plus every directive sequence, malformed \
           ones included) x every selection list; nontrivial = the file has at least one tag directive; distinct = \
           distinct (selected lines, diagnostic, selection)",
    assumptions: &[
      "the selection after a mismatched end directive in a non-strict parse is not judged",
    ],
    spaces: |t| {
      let trees = std::rc::Rc::new(nested(t.pick(3, 4), 3));
      let nsel = seq_count(SELS.len(), 1, 3);
      let hi = 3;
      let tr = trees.clone();
      let a = Space::new(
        "well-nested regions x selection lists",
        trees.len() as u64 * nsel,
        move |i| {
          let seq = &tr[(i / nsel) as usize];
          let sel = sel_list(&seq_decode(i % nsel, SELS.len(), 1, hi));
          let (file, lines) = file(seq, (i / nsel) as usize % 4);
          sel.map(|sel| Case { file, lines, sel, single: false })
        },
        |c| c.as_ref().map(|c| c.describe()).unwrap_or_default(),
        |c| c.as_ref().map_or(Verdict::Skip, |c| c.check()),
      );
      let tr = trees.clone();
      let small = trees.iter().filter(|s| s.len() <= 6).count() as u64;
      let sels3 = seq_count(SELS.len(), 3, 3);
      let c = Space::new(
        "single tag attribute",
        small * SELS.len() as u64,
        move |i| {
          let seq = &tr[(i / SELS.len() as u64) as usize];
          let (file, lines) = file(seq, (i % 4) as usize);
          Case { file, lines, sel: SELS[(i % SELS.len() as u64) as usize].into(), single: true }
        },
        |c| c.describe(),
        |c| c.check(),
      );
      let hi = t.pick(6, 7);
      let nseq = seq_count(4, 1, hi);
      let sels = ["a", "b", "a;b", "*", "a;!b", "!a", "**", "!*"];
      let d = Space::new(
        "arbitrary directive sequences",
        nseq * sels.len() as u64,
        move |i| {
          let seq: Vec<L> = seq_decode(i / sels.len() as u64, 4, 1, hi)
            .into_iter()
            .map(|k| [L::Start(0), L::End(0), L::Start(1), L::End(1)][k])
            .collect();
          let (file, lines) = file(&seq, 0);
          Case { file, lines, sel: sels[(i % sels.len() as u64) as usize].into(), single: false }
        },
        |c| c.describe(),
        |c| c.check(),
      );
      vec![a, c, d, syntax()]
    },
  }
}
