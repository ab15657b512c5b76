//! Document attributes: a reference yields the value in force at its position.
use super::*;
use crate::adoc::*;
use crate::engine::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Val {
  Unset,
  Str(String),
}
use Val::*;

/// independent model of the attribute environment
#[derive(Clone, Default)]
struct Env {
  readonly: BTreeMap<String, Val>,
  soft: BTreeMap<String, Val>,
  asg: BTreeMap<String, Val>,
  /// names that are assigned by the environment of the document only
  diags: Vec<String>,
}

const JOB_ONLY: [&str; 2] = ["docname", "max-include-depth"];
const HEADER_ONLY: [&str; 2] = ["lang", "keywords"];

impl Env {
  fn get(&self, name: &str) -> Option<String> {
    let n = name.to_lowercase();
    let v = self.readonly.get(&n).or_else(|| self.asg.get(&n)).or_else(|| self.soft.get(&n));
    match v {
      Some(Str(s)) => Some(s.clone()),
      Some(Unset) => None,
      None if n == "empty" => Some(String::new()),
      None if n == "lt" => Some("<".into()),
      None => None,
    }
  }
  fn mode(&self) -> String {
    self.get("attribute-missing").unwrap_or("skip".into())
  }
  /// substitute the references of one line; None: the line is dropped
  fn subst(&mut self, line: &str, warn: bool) -> Option<String> {
    let b: Vec<char> = line.chars().collect();
    let (mut out, mut i) = (String::new(), 0);
    let mut dropped = false;
    while i < b.len() {
      let esc = b[i] == '\\' && b.get(i + 1) == Some(&'{');
      let at = if esc { i + 1 } else { i };
      if b[at] == '{' {
        if let Some(len) = b[at..].iter().position(|c| *c == '}') {
          let name: String = b[at + 1..at + len].iter().collect();
          if !name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_') {
            if esc {
              out += &format!("{{{name}}}");
            } else {
              match self.get(&name) {
                Some(v) => out += &v,
                None => match self.mode().as_str() {
                  "drop" => {}
                  "drop-line" => dropped = true,
                  m => {
                    if m == "warn" && warn {
                      self.diags.push("missing".into());
                    }
                    out += &format!("{{{name}}}");
                  }
                },
              }
            }
            i = at + len + 1;
            continue;
          }
        }
      }
      out.push(b[i]);
      i += 1;
    }
    if dropped { None } else { Some(out) }
  }
  /// an attribute entry
  fn entry(&mut self, line: &str, header: bool) {
    let body = line.strip_prefix(':').unwrap();
    let (name, val) = body.split_once(':').unwrap();
    let unset = name.starts_with('!') || name.ends_with('!');
    let name = name.trim_matches('!').to_lowercase();
    if JOB_ONLY.contains(&name.as_str()) {
      self.diags.push("job level".into());
      return;
    }
    if HEADER_ONLY.contains(&name.as_str()) && !header {
      self.diags.push("document header".into());
      return;
    }
    // wrapped values
    let mut text = String::new();
    for (i, l) in val.split('\n').enumerate() {
      let l = l.trim();
      let part = l.strip_suffix(" \\").or(if l == "\\" { Some("") } else { None });
      if i > 0 {
        text.push(' ');
      }
      text += part.unwrap_or(l).trim_end();
    }
    let v = if unset {
      Unset
    } else {
      Str(self.subst(text.trim(), false).unwrap_or_default())
    };
    note_transition(&(&name, self.asg.get(&name), &v, header));
    self.asg.insert(name, v);
  }
  fn lines(&mut self, ls: &[&str], out: &mut Vec<String>) {
    for l in ls {
      if let Some(t) = self.subst(l, true) {
        out.extend(t.split_whitespace().map(|w| w.to_string()));
      }
    }
  }
}

/// statements of the body
const BODY: [&str; 30] = [
  ":x: 1", ":x: 2", ":x:", ":x!:", ":!x:", ":X: up", ":y: {x}3", ":x: {x}k", ":y: {nope}k", ":y: \\{x}", ":y!:", ":attribute-missing: drop", ":attribute-missing: drop-line", ":attribute-missing: skip",
  ":attribute-missing: warn", ":x: a \\\n  b{y}", ":lang: zz", ":docname: zz", "====\n:x: 4\n\nin {x}\n====", "include::set.adoc[]", "q\n{x} r\n:x: 9", "ifdef::x[:y: 7]", "// :x: 5", "----\n:x: 5\n----",
  "|===\na|:c: 6\n\nin {x} {c}\n|===", "* li {x}\n* {y}.", ":y: {y}{x}", ":x-y_z: {X}q", "////\n:x: 8\n////", ":x:   {lt}  ",
];
const HEAD: [&str; 13] = [
  ":x: 1", ":x:", ":x!:", ":!x:", ":X: {x}up", ":y: {x}3", ":y: {nope}k", ":attribute-missing: drop", ":attribute-missing: warn", ":x: a \\\n  b{y}", ":lang: zz", ":docname: zz", "// :x: 5",
];

fn jobs(i: usize) -> (&'static str, Option<Val>, bool) {
  [("none", None, false), ("ro", Some(Str("J".into())), true), ("ro unset", Some(Unset), true), ("soft", Some(Str("S".into())), false), ("soft unset", Some(Unset), false)][i].clone()
}

#[derive(Clone)]
struct Case {
  job: usize,
  title: bool,
  head: Vec<&'static str>,
  body: Vec<&'static str>,
  /// 0: a probe after each statement; 1: one after all of them, adjoining
  style: usize,
}

impl Case {
  fn names(&self) -> Vec<&'static str> {
    let mut v = vec!["x", "y"];
    for (n, m) in [("lang", ":lang:"), ("docname", ":docname:"), ("x-y_z", ":x-y_z:"), ("c", "|===")] {
      if self.head.iter().chain(&self.body).any(|s| s.starts_with(m)) {
        v.push(n);
      }
    }
    v
  }
  fn probe(&self, k: usize) -> Vec<String> {
    let mut v = vec![format!("P{k}")];
    for n in self.names() {
      v.push(format!("{n}=[{{{n}}}]"));
    }
    v.push("\\{x} {X}end{y}{empty}.".into());
    v.push("z".into());
    v
  }
  fn doc(&self) -> String {
    let mut d = String::new();
    if self.title {
      d += "= T\n";
    }
    for h in &self.head {
      d += &format!("{h}\n");
    }
    if !d.is_empty() {
      d += "\n";
    }
    if self.style == 0 || self.body.is_empty() {
      d += &format!("{}\n\n", self.probe(0).join("\n"));
      for (k, s) in self.body.iter().enumerate() {
        d += &format!("{s}\n\n{}\n\n", self.probe(k + 1).join("\n"));
      }
    } else {
      d += "start\n\n";
      d += &self.body.join("\n");
      d += &format!("\n{}\n\n{}\n", self.probe(0).join("\n"), self.probe(1).join("\n"));
    }
    d
  }
  /// words of the visible text, and diagnostics
  fn expected(&self) -> (Vec<String>, Vec<String>) {
    let mut e = Env::default();
    e.readonly.insert("docname".into(), Str("doc".into()));
    let (_, v, ro) = jobs(self.job);
    if let Some(v) = v {
      if ro { &mut e.readonly } else { &mut e.soft }.insert("x".into(), v);
    }
    let mut out = vec![];
    for h in &self.head {
      if h.starts_with(':') {
        e.entry(h, true);
      }
    }
    let probe = |e: &mut Env, k: usize, out: &mut Vec<String>| {
      note_state(&(&e.readonly, &e.asg, &e.soft));
      let p = self.probe(k);
      e.lines(&p.iter().map(|s| s.as_str()).collect::<Vec<_>>(), out);
    };
    if self.style == 0 || self.body.is_empty() {
      probe(&mut e, 0, &mut out);
    } else {
      out.push("start".into());
    }
    for (k, s) in self.body.iter().enumerate() {
      match *s {
        s if s.starts_with(':') => e.entry(s, false),
        "====\n:x: 4\n\nin {x}\n====" => {
          e.entry(":x: 4", false);
          e.lines(&["in {x}"], &mut out);
        }
        "include::set.adoc[]" => e.entry(":x: inc", false),
        "q\n{x} r\n:x: 9" => e.lines(&["q", "{x} r", ":x: 9"], &mut out),
        "ifdef::x[:y: 7]" => {
          if e.get("x").is_some() {
            e.entry(":y: 7", false);
          }
        }
        s if s.starts_with("//") => {}
        "----\n:x: 5\n----" => out.extend([":x:".to_string(), "5".into()]),
        "|===\na|:c: 6\n\nin {x} {c}\n|===" => {
          let mut inner = e.clone();
          inner.entry(":c: 6", true);
          inner.lines(&["in {x} {c}"], &mut out);
          e.diags = inner.diags;
        }
        "* li {x}\n* {y}." => {
          e.lines(&["li {x}"], &mut out);
          e.lines(&["{y}."], &mut out);
        }
        s => unreachable!("{s}"),
      }
      if self.style == 0 {
        probe(&mut e, k + 1, &mut out);
      }
    }
    if self.style == 1 && !self.body.is_empty() {
      probe(&mut e, 0, &mut out);
      probe(&mut e, 1, &mut out);
    }
    e.diags.sort();
    (out, e.diags)
  }
  fn job(&self) -> Job {
    let job = Job::default().with_files(&[("/base/set.adoc", ":x: inc\n")]);
    let (_, v, ro) = jobs(self.job);
    match v {
      None => job,
      Some(Unset) => job.attr("x", false, ro),
      Some(Str(s)) => job.attr("x", s.as_str(), ro),
    }
  }
}

fn check(c: &Case) -> Verdict {
  let doc = c.doc();
  let (want, wd) = c.expected();
  // the references of an AsciiDoc cell are read before its own entries are, if only for warnings and dropped lines
  if c.body.iter().any(|s| s.starts_with("|===")) && c.head.iter().chain(&c.body).any(|s| *s == ":attribute-missing: warn" || *s == ":attribute-missing: drop-line") {
    return Verdict::Skip;
  }
  let out = c.job().render(&doc, Be::H5);
  let html = match out.html {
    Some(h) => h,
    None => return Verdict::bad("rejected"),
  };
  let got = words(&html);
  if got != want {
    return Verdict::bad(format!("job {}: got\n{}\nexpected\n{}", jobs(c.job).0, got.join(" "), want.join(" ")));
  }
  let mut gd: Vec<String> = out
    .diags
    .iter()
    .map(|d| {
      ["missing", "job level", "document header"].iter().find(|m| d.message.contains(**m)).map_or(d.message.clone(), |m| m.to_string())
    })
    .collect();
  gd.sort();
  if gd != wd {
    return Verdict::bad(format!("job {}: diagnostics {gd:?}, expected {wd:?}", jobs(c.job).0));
  }
  Verdict::ok(!c.body.is_empty() || !c.head.is_empty(), &(got, gd))
}

/// statements that may directly precede other lines
fn adjoinable(s: &str) -> bool {
  s.starts_with(':') || s.starts_with("include") || s.starts_with("ifdef") || s.starts_with("// ")
}

fn space(name: &str, hh: usize, bh: usize, style: usize) -> Space {
  let pool: Vec<&'static str> = BODY.iter().copied().filter(|s| style == 0 || adjoinable(s)).collect();
  let nh = seq_count(HEAD.len(), 0, hh);
  let nb = seq_count(pool.len(), 1, bh);
  let n = 5 * 2 * nh * nb;
  Space::new(
    name,
    n,
    move |i| {
      let mut r = Radix::new(i);
      let job = r.take(5);
      let title = r.take(2) == 1;
      let h = r.take(nh as usize) as u64;
      let b = r.take(nb as usize) as u64;
      Case {
        job,
        title,
        head: seq_decode(h, HEAD.len(), 0, hh).into_iter().map(|k| HEAD[k]).collect(),
        body: seq_decode(b, pool.len(), 1, bh).into_iter().map(|k| pool[k]).collect(),
        style,
      }
    },
    |c| format!("[x: {}]\n{}", jobs(c.job).0, c.doc()),
    |c| check(c),
  )
}

/// places where a reference is replaced, whatever the value
const TEXT: [&str; 64] = [
  "@\n", ".@\npara\n", "== @\n\npara\n", "== S\n\n=== @\n", "* @\n", ". @\n", "@:: d\n", "t:: @\n", "t::\n@\n", "* a\n+\n@\n", "|===\n|@\n|===\n", "[%header]\n|===\n|@\n\n|b\n|===\n", "|===\n|@\n\n|b\n|===\n", "[cols=2*]\n|===\n|a |@\n|===\n",
  ",===\n@,b\n,===\n", ",===\n\"@\",b\n,===\n", ":===\n@:b\n:===\n", "[cols=a]\n|===\n|@\n|===\n", "[cols=a]\n|===\n|* @\n|===\n", "[cols=e]\n|===\n|@\n|===\n", "[cols=m]\n|===\n|@\n|===\n", "[cols=s]\n|===\n|@\n|===\n", "[cols=h]\n|===\n|@\n|===\n",
  "image::i.png[@]\n", "x image:i.png[@] y\n", ".@\nimage::i.png[]\n", "x link:u[@] y\n", "x http://a.b[@] y\n", "x footnote:[@] y\n", "x <<id,@>> y\n", "x xref:id[@] y\n", "x btn:[@] y\n", "x kbd:[@] y\n", "x menu:File[@] y\n",
  "[quote, @, c]\nq\n", "[quote, a, @]\nq\n", "\"q\"\n-- @\n", "[quote]\n@\n", "[quote]\n____\n@\n____\n", "> @\n", "NOTE: @\n", "[NOTE]\n====\n@\n====\n", ".@\n====\nx\n====\n", "====\n@\n====\n", "****\n@\n****\n", "--\n@\n--\n", "[verse]\n@\n", "[verse]\n____\n@\n____\n",
  "x *@* y\n", "x _@_ y\n", "x `@` y\n", "x #@# y\n", "x ^@^ y\n", "x ~@~ y\n", "x **@**y\n", "x [.r]#@# y\n", "x \"`@`\" y\n", "x +\n@\n", "x ((@)) y\n", "[subs=\"specialchars,attributes\"]\n----\n@\n----\n", "[subs=+attributes]\n----\n@\n----\n", "[subs=\"attributes+\"]\n....\n@\n....\n", "x pass:c,a[@] y\n", "----\nx <1>\n----\n<1> @\n",
];
/// places where a reference is replaced, by what suits an address, a name or a macro attribute
const NAMES: [&str; 33] = [
  "image::@.png[]\n", "x image:@.png[] y\n", "x image:i.png[role=@] y\n", "image::i.png[alt=@]\n", "image::i.png[link=@]\n", "image::i.png[title=\"@\"]\n", "image::i.png[width=@]\n", "x link:@[q] y\n", "x http://a.b/@[q] y\n", "x http://a.b/@ y\n",
  "x xref:@[q] y\n", "x <<@,q>> y\n", "x <<@>> y\n", "video::@.mp4[]\n", "video::v.mp4[poster=@]\n", "audio::@.ogg[]\n", "[.@]\npara\n", "[role=@]\npara\n", "[id=@]\npara\n", "[#@]\npara\n", "x [.@]#x# y\n", "[source,@]\n----\nx\n----\n",
  "[caption=\"@ \"]\n.T\n====\nx\n====\n", "x icon:@[] y\n", "[[@]]\npara\n", "x [[@]]y\n", "x anchor:@[] y\n", "[WARNING,caption=@]\n====\nx\n====\n", "x mailto:@[q] y\n", "[title=@]\npara\n", "[reftext=@]\n[[s]]\n== S\n\n<<s>>\n", "[[s,@]]\n== S\n\n<<s>>\n", ":y: @\n\n{y}\n",
];
/// places where nothing is replaced
const LITERAL: [&str; 15] = [
  "----\n@\n----\n", "....\n@\n....\n", "  @\n", "x +@+ y\n", "x ++@++ y\n", "x +++@+++ y\n", "x pass:[@] y\n", "x pass:c[@] y\n", "x `+@+` y\n", "[cols=l]\n|===\n|@\n|===\n", "[subs=specialchars]\n@\n", "```\n@\n```\n", "[source]\n@\n", "[listing]\n@\n", "[literal]\n@\n",
];
const VALUES: [&str; 6] = ["V1", "", "<&>", "V*b*", "{y}", "a `q` _r_"];

#[derive(Clone)]
struct Spot {
  tpl: &'static str,
  /// None: unset
  val: Option<&'static str>,
  /// job, job readonly, header, body, included
  by: usize,
  literal: bool,
}

impl Spot {
  fn doc(&self) -> String {
    let d = self.tpl.replace('@', "ab{x}yz");
    match (self.by, self.val) {
      (2, Some(v)) => format!(":x: {v}\n\n{d}"),
      (3, Some(v)) => format!("p\n\n:x: {v}\n\n{d}"),
      (4, Some(_)) => format!("p\n\ninclude::set.adoc[]\n\n{d}"),
      _ => d,
    }
  }
}

fn check_spot(s: &Spot) -> Verdict {
  // `>` separates the items of a menu
  if s.tpl.contains("menu:") && s.val.is_some_and(|v| v.contains('>')) {
    return Verdict::Skip;
  }
  let mut job = Job { embedded: true, ..Job::default() }.attr("experimental", true, false).attr("icons", "font", false);
  if let Some(v) = s.val {
    match s.by {
      0 => job = job.attr("x", v, false),
      1 => job = job.attr("x", v, true),
      4 => job = job.with_files(&[("/base/set.adoc", &format!(":x: {v}\n"))]),
      _ => {}
    }
  }
  let doc = s.doc();
  let want = if s.literal { "ab{x}yz".to_string() } else { format!("ab{}yz", s.val.unwrap_or("{x}")) };
  for be in BACKENDS {
    let html = job.html(&doc, be);
    let ns = match crate::html::parse(&html) {
      Ok(n) => n,
      Err(e) => return Verdict::bad(format!("malformed: {e}\n{html}")),
    };
    let mut seen = crate::html::visible_text(&ns).contains(&want);
    let els = crate::html::select(&ns, |_| true);
    seen |= els.iter().any(|e| e.attrs.iter().any(|(_, v)| v.contains(&want)));
    if !seen {
      return Verdict::bad(format!("{want:?} is not in the output:\n{html}"));
    }
  }
  Verdict::ok(true, &want)
}

fn spots(name: &str, tpls: &'static [&'static str], vals: usize, unset: bool, literal: bool) -> Space {
  let nv = vals + unset as usize;
  Space::new(
    name,
    (tpls.len() * nv * 5) as u64,
    move |i| {
      let mut r = Radix::new(i);
      let tpl = tpls[r.take(tpls.len())];
      let v = r.take(nv);
      Spot { tpl, val: (v < vals).then(|| VALUES[v]), by: r.take(5), literal }
    },
    |s| format!("[x: {:?} by {}]\n{}", s.val, s.by, s.doc()),
    check_spot,
  )
}

/// attributes read while converting: captions
const CAPS: [&str; 14] = [
  ":example-caption: Ex", ":example-caption!:", ":example-caption: Sample", ":table-caption!:", ":table-caption: Tab", ":figure-caption: Fig", ":figure-caption!:", ":note-caption: N", ":tip-caption: T", ":listing-caption: L",
  "====\n:example-caption: In\n\nz\n====", "|===\na|:example-caption: Cell\n\nz\n|===", "// :example-caption: Com", "ifdef::nope[:example-caption: No]",
];

const CAPJOBS: [(&str, &str, bool); 10] = [
  ("", "", false), ("example-caption", "J", false), ("example-caption", "J", true), ("example-caption", "!", false), ("example-caption", "!", true), ("table-caption", "J", false), ("note-caption", "J", true), ("note-caption", "J", false), ("listing-caption", "J", true), ("figure-caption", "!", false),
];

fn check_caps(stmts: &[&str], jobattr: (&str, &'static str, bool)) -> Verdict {
  let locked = |name: &str| jobattr.2 && name == jobattr.0;
  let (mut ex, mut tab, mut fig, mut lst, mut note, mut tip) = (Some("Example"), Some("Table"), Some("Figure"), None, "Note", "Tip");
  let (mut ne, mut nt, mut nf, mut nl) = (0, 0, 0, 0);
  let mut doc = String::new();
  let mut want = vec![];
  {
    let v = (jobattr.1 != "!").then_some(jobattr.1);
    match jobattr.0 {
      "example-caption" => ex = v,
      "table-caption" => tab = v,
      "figure-caption" => fig = v,
      "listing-caption" => lst = v,
      "note-caption" => note = jobattr.1,
      _ => {}
    }
  }
  for (i, s) in std::iter::once(&"").chain(stmts).enumerate() {
    let effective = match s.strip_prefix(':') {
      Some(r) if locked(r.split([':', '!']).next().unwrap()) => "",
      _ if s.contains("In\n") && locked("example-caption") => "|===",
      _ => s,
    };
    match effective {
      ":example-caption: Ex" => ex = Some("Ex"),
      ":example-caption!:" => ex = None,
      ":example-caption: Sample" => ex = Some("Sample"),
      ":table-caption!:" => tab = None,
      ":table-caption: Tab" => tab = Some("Tab"),
      ":figure-caption: Fig" => fig = Some("Fig"),
      ":figure-caption!:" => fig = None,
      ":note-caption: N" => note = "N",
      ":tip-caption: T" => tip = "T",
      ":listing-caption: L" => lst = Some("L"),
      "====\n:example-caption: In\n\nz\n====" => {
        ex = Some("In");
        want.push("z".to_string());
      }
      s if s.starts_with("|===") => want.push("z".into()),
      _ => {}
    }
    note_state(&(ex, tab, fig, lst, note, tip, ne, nt));
    note_transition(&(i, s));
    doc += &format!("{s}\n\n.E{i}\n====\ne\n====\n\n.B{i}\n|===\n|t\n|===\n\n.F{i}\nimage::f.png[]\n\n.L{i}\n----\nl\n----\n\nNOTE: n\n\n[TIP]\nt\n\n");
    let mut title = |cap: Option<&str>, n: &mut u32, t: String, after: bool, text: &str| {
      let line = match cap {
        Some(c) => {
          *n += 1;
          format!("{c} {n}. {t}")
        }
        None => t,
      };
      if after {
        want.push(line);
      } else {
        want.push(line);
        want.push(text.into());
      }
    };
    title(ex, &mut ne, format!("E{i}"), false, "e");
    title(tab, &mut nt, format!("B{i}"), false, "t");
    title(fig, &mut nf, format!("F{i}"), true, "");
    title(lst, &mut nl, format!("L{i}"), false, "l");
    for w in [note, "n", tip, "t"] {
      want.push(w.into());
    }
  }
  let want: Vec<String> = want.join(" ").split_whitespace().map(|s| s.to_string()).collect();
  let mut job = Job::default();
  match jobattr {
    ("", ..) => {}
    (n, "!", ro) => job = job.attr(n, false, ro),
    (n, v, ro) => job = job.attr(n, v, ro),
  }
  let out = job.html(&doc, Be::Dr);
  let got = words(&out);
  if got != want {
    return Verdict::bad(format!("got\n{}\nexpected\n{}", got.join(" "), want.join(" ")));
  }
  Verdict::ok(true, &got)
}

pub fn prop() -> Prop {
  Prop {
    id: "C06",
    level: "model_checking",
    rule: "every sequence of attribute statements up to the bound, probed after each; nontrivial = with statements",
    assumptions: &[],
    spaces: |t| {
      vec![
        space("header then body", 1, t.pick(2, 3), 0),
        space("header", t.pick(2, 3), 1, 0),
        space("adjoining", 1, t.pick(2, 3), 1),
        spots("spots", &TEXT, VALUES.len(), true, false),
        spots("names", &NAMES, 2, false, false),
        spots("literal", &LITERAL, VALUES.len(), true, true),
        Space::new(
          "captions",
          CAPJOBS.len() as u64 * seq_count(CAPS.len(), 0, t.pick(3, 4)),
          move |i| {
            let mut r = Radix::new(i);
            let j = r.take(CAPJOBS.len());
            (CAPJOBS[j], seq_decode(i / CAPJOBS.len() as u64, CAPS.len(), 0, t.pick(3, 4)).into_iter().map(|k| CAPS[k]).collect::<Vec<_>>())
          },
          |c| format!("[job: {:?}]\n{}", c.0, c.1.join("\n\n")),
          |c| check_caps(&c.1, c.0),
        ),
      ]
    },
  }
}
