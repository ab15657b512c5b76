//! Safe modes, uri gating and the base directory: what a document can make the converter read, learn or change.
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;

use asciidork_core::{AttrValue, SafeMode};

use crate::adoc::*;
use crate::engine::*;

const MODES: [SafeMode; 4] = [SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure];
const SECRET: &str = "s3cret";

/// where a document names something to be read; T stands for the target
const CARRIERS: [(&str, &str); 17] = [
  ("include", "include::T[]"),
  ("include after text", "a\ninclude::T[]\nb"),
  ("include in a listing", "----\ninclude::T[]\n----"),
  ("include in nested blocks", "====\n--\ninclude::T[]\n--\n===="),
  ("include in a list item", "* a\n+\ninclude::T[]"),
  ("include in a table", "|===\n|a\ninclude::T[]\n|==="),
  ("include in an AsciiDoc cell", "|===\na|a\n\ninclude::T[]\n|==="),
  ("include with options", "include::T[lines=1..9;2,opts=optional]"),
  ("include in an included file", "include::outer.adoc[]"),
  ("include after conditionals", "ifndef::x[]\nifdef::x[]\nendif::[]\ninclude::T[]\nendif::[]"),
  ("include in the header", "= T\ninclude::T[]\n\nx"),
  ("inline svg block", "image::T[opts=inline,format=svg]"),
  ("inline svg", "a image:T[opts=inline,format=svg] b"),
  ("inline svg in an AsciiDoc cell", "|===\na|image:T[opts=inline,format=svg]\n|==="),
  ("data uri block", ":data-uri:\n\nimage::T[]"),
  ("data uri", ":data-uri:\n\na image:T[] b"),
  ("data uri in a title", ":data-uri:\n\n== s image:T[x] s"),
];

/// spelling of the target, how it is requested
const TARGETS: [(&str, &str); 8] = [
  ("f.svg", "/base/f.svg"),
  ("sub/f.svg", "/base/sub/f.svg"),
  ("/abs/f.svg", "/abs/f.svg"),
  ("http://h.o/f.svg", "uri:http://h.o/f.svg"),
  ("https://h.o/d/f.svg", "uri:https://h.o/d/f.svg"),
  ("{u}", "uri:http://u.o/f.svg"),
  ("{u}?q", "uri:http://u.o/f.svg?q"),
  ("{p}", "/base/sub/f.svg"),
];

/// ways to (try to) allow reading uris, and whether that counts
const ALLOW: [(&str, Option<(bool, bool)>); 10] = [
  ("", None),
  ("", Some((true, true))),
  ("", Some((true, false))),
  ("", Some((false, true))),
  ("", Some((false, false))),
  (":allow-uri-read:\n", None),
  (":allow-uri-read: 1\n", Some((false, true))),
  ("= T\n:allow-uri-read:\n:Allow-URI-Read:\n\n", None),
  ("x\n\n:allow-uri-read:\n\n", Some((false, false))),
  ("{set:allow-uri-read}\n\n", None),
];

fn reads() -> Space {
  let n = MODES.len() * CARRIERS.len() * TARGETS.len() * ALLOW.len() * 4;
  Space::new(
    "what is read",
    n as u64,
    |i| {
      let mut r = Radix::new(i);
      let t = *r.pick(&TARGETS);
      let a = *r.pick(&ALLOW);
      let m = *r.pick(&MODES);
      let dir = r.take(4);
      (*r.pick(&CARRIERS), t, a, m, dir)
    },
    |((n, c), t, a, m, dir)| format!("{m:?}, {n}, api {:?}, dir {dir}\n{}{}", a.1, a.0, c.replace('T', t.0)),
    |((name, carrier), (target, request), (prelude, api), mode, dir)| {
      let image = carrier.contains("image:");
      // a header of its own; targets of attributes that come to nothing there
      if carrier.starts_with('=') && (prelude.contains('=') || !prelude.is_empty() || request.starts_with("uri")) || prelude.contains("\n\n") && carrier.starts_with(":data") {
        return Verdict::Skip;
      }
      // directories for images
      let imagesdir = ["", "img", "/abs/img", "http://i.o/img"][*dir];
      if !image && *dir > 0 || image && *dir > 0 && request.starts_with("uri") {
        return Verdict::Skip;
      }
      let mut job = Job { safe: *mode, embedded: true, ..Job::default() }.attr("u", "http://u.o/f.svg", false).attr("p", "sub/f.svg", false);
      if let Some((v, ro)) = api {
        job = job.attr("allow-uri-read", *v, *ro);
      }
      if *dir > 0 {
        job = job.attr("imagesdir", imagesdir, true);
      }
      let mut request = request.to_string();
      if image && target.starts_with('{') {
        // an attribute reference at the start of an image target is not looked at
        return Verdict::Skip;
      }
      match *dir {
        1 if !target.starts_with('/') => request = request.replace("/base/", "/base/img/"),
        2 if !target.starts_with('/') => request = request.replace("/base/", "/abs/img/"),
        3 if !target.starts_with('/') => request = request.replace("/base/", "uri:http://i.o/img/"),
        3 => return Verdict::Skip,
        _ => {}
      }
      let nested = *name == "include in an included file";
      let content = format!("<svg>{SECRET}</svg>\n");
      let outer = format!("include::{target}[]\n");
      job = job.with_files(&[(request.as_str(), content.as_str()), ("/base/outer.adoc", outer.as_str())]);
      let doc = format!("{prelude}{}\n", carrier.replace('T', target));
      let allowed = matches!(api, Some((true, _)));
      let uri = request.starts_with("uri:");
      let read = *mode != SafeMode::Secure && (!uri || allowed);
      for be in BACKENDS {
        job.log.borrow_mut().clear();
        let out = job.render(&doc, be);
        let mut log: Vec<String> = job.log.borrow().clone();
        if nested && *mode != SafeMode::Secure {
          if log.first().map(String::as_str) != Some("/base/outer.adoc") {
            return Verdict::bad(format!("{be:?}: the outer file was not read: {log:?}"));
          }
          log.remove(0);
        }
        let want: BTreeSet<String> = if read { [request.clone()].into() } else { BTreeSet::new() };
        let got: BTreeSet<String> = log.into_iter().collect();
        if got != want {
          return Verdict::bad(format!("{be:?}: requested {got:?}, expected {want:?}"));
        }
        let html = out.html.unwrap_or_default();
        if *name == "include in the header" {
          // it is the author line
          continue;
        }
        let plain = !carrier.contains("data-uri");
        if plain && html.contains(SECRET) != read {
          return Verdict::bad(format!("{be:?}: read is {read}, but the output is\n{html}"));
        }
        if !plain && (html.contains("data:image")) != read {
          return Verdict::bad(format!("{be:?}: read is {read}, but the output is\n{html}"));
        }
      }
      note_state(&(mode_nr(*mode), uri, allowed));
      note_transition(&(mode_nr(*mode), uri, allowed, name));
      Verdict::ok(true, &(mode_nr(*mode), read, target, name, dir))
    },
  )
}

fn mode_nr(m: SafeMode) -> u8 {
  m as u8
}

/// docinfo files and icons are read according to the mode as well
fn docinfo() -> Space {
  const SETTING: [&str; 10] = ["shared", "private", "shared,private", "shared-head", "shared-header", "shared-footer", "private-head", "private-header", "private-footer", ""];
  const DIRS: [(&str, &str); 3] = [("", "/base/"), ("di", "/base/di/"), ("/abs/di", "/abs/di/")];
  Space::new(
    "docinfo files",
    (MODES.len() * SETTING.len() * DIRS.len() * 2 * 2) as u64,
    |i| {
      let mut r = Radix::new(i);
      (*r.pick(&MODES), *r.pick(&SETTING), *r.pick(&DIRS), r.take(2) == 1, r.take(2) == 1)
    },
    |(m, s, d, by_doc, exist)| format!("{m:?}, docinfo={s}, docinfodir={}, set by the document: {by_doc}, files exist: {exist}", d.0),
    |(mode, setting, (dir, path), by_doc, exist)| {
      let mut job = Job { safe: *mode, embedded: false, ..Job::default() };
      let mut doc = "= Title\n".to_string();
      if *by_doc {
        doc.push_str(&format!(":docinfo: {setting}\n"));
        if !dir.is_empty() {
          doc.push_str(&format!(":docinfodir: {dir}\n"));
        }
      } else {
        job = job.attr("docinfo", *setting, true);
        if !dir.is_empty() {
          job = job.attr("docinfodir", *dir, true);
        }
      }
      doc.push_str("\nbody\n");
      let parts: BTreeSet<&str> = setting.split(',').collect();
      let mut want = vec![];
      for (q, loc) in [("", "head"), ("-header", "header"), ("-footer", "footer")] {
        if parts.contains("shared") || parts.contains(format!("shared-{loc}").as_str()) {
          want.push(format!("{path}docinfo{q}.html"));
        }
        if parts.contains("private") || parts.contains(format!("private-{loc}").as_str()) || setting.is_empty() {
          want.push(format!("{path}doc-docinfo{q}.html"));
        }
      }
      if *mode == SafeMode::Secure {
        want.clear();
      }
      if *exist {
        let files: Vec<(String, String)> = want.iter().map(|f| (f.clone(), format!("<meta name=\"{}\">\n", f.replace(['/', '.'], "_")))).collect();
        let refs: Vec<(&str, &str)> = files.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        job = job.with_files(&refs);
      }
      for be in BACKENDS {
        job.log.borrow_mut().clear();
        let html = job.html(&doc, be);
        let got = job.log.borrow().clone();
        if got != want {
          return Verdict::bad(format!("{be:?}: requested {got:?}, expected {want:?}"));
        }
        // head before body, header before the content, footer after it, shared before private
        let mut last = 0;
        for f in &want {
          let at = html.find(&format!("<meta name=\"{}\">", f.replace(['/', '.'], "_")));
          match (at, *exist) {
            (Some(n), true) if n > last => last = n,
            (None, false) => {}
            _ => return Verdict::bad(format!("{be:?}: {f} is at {at:?} of\n{html}")),
          }
          let (head, content) = (html.find("</head>").unwrap(), html.find("<p>body</p>").unwrap());
          if *exist {
            let ok = if f.contains("-header") { last > head && last < content } else if f.contains("-footer") { last > content } else { last < head };
            if !ok {
              return Verdict::bad(format!("{be:?}: {f} is misplaced in\n{html}"));
            }
          }
        }
      }
      Verdict::ok(!want.is_empty(), &(want, mode_nr(*mode)))
    },
  )
}

const INTRINSIC: [(&str, [&str; 4]); 10] = [
  ("docdir", ["/base", "/base", "", ""]),
  ("docfile", ["/base/doc.adoc", "/base/doc.adoc", "doc.adoc", "doc.adoc"]),
  ("docname", ["doc"; 4]),
  ("docfilesuffix", [".adoc"; 4]),
  ("user-home", ["~", "~", ".", "."]),
  ("safe-mode-name", ["UNSAFE", "SAFE", "SERVER", "SECURE"]),
  ("safe-mode-level", ["0", "1", "10", "20"]),
  ("safe-mode-secure", ["-", "-", "-", ""]),
  ("safe-mode-unsafe", ["", "-", "-", "-"]),
  ("max-include-depth", ["-"; 4]),
];

/// what the document learns about its surroundings, whatever it tries to set
fn intrinsic() -> Space {
  const TRY: [&str; 8] = ["", ":A: evil\n", "= T\n:A: evil\n\n", ":A!:\n", "x\n\n:A: evil\n\n", "{set:A:evil}\n\n", "{counter2:A:7}\n\n", "include::evil.adoc[]\n\n"];
  Space::new(
    "intrinsic attributes",
    (MODES.len() * INTRINSIC.len() * TRY.len() * 2) as u64,
    |i| {
      let mut r = Radix::new(i);
      (r.take(4), *r.pick(&INTRINSIC), *r.pick(&TRY), r.take(2) == 1)
    },
    |(m, a, t, cell)| format!("{:?}, in a cell {cell}\n{}[{{{}}}]", MODES[*m], t.replace('A', a.0), a.0),
    |(m, (name, values), attempt, cell)| {
      // an attribute that is not set here can be counted up
      let mode = MODES[*m];
      let job = Job { safe: mode, ..Job::default() }.with_files(&[("/base/evil.adoc", &format!(":{name}: evil\n"))]);
      let home = std::env::home_dir().map(|h| h.to_string_lossy().to_string()).unwrap_or_default();
      let mut want = values[*m];
      if want == "~" {
        want = &home;
      }
      let unset = want == "-";
      if unset && (!attempt.is_empty() && *name != "max-include-depth" || attempt.contains("counter")) {
        return Verdict::Skip;
      }
      let probe = format!("start{{{name}}}end");
      let probe = if *cell { format!("|===\na|{probe}\n|===\n") } else { format!("{probe}\n") };
      let doc = format!("{}{probe}", attempt.replace('A', name));
      for be in BACKENDS {
        let html = job.html(&doc, be);
        let got = html.rfind("start").and_then(|s| html[s + 5..].find("end").map(|e| html[s + 5..s + 5 + e].to_string()));
        let expect = if unset { format!("{{{name}}}") } else { want.to_string() };
        if got.as_deref() != Some(expect.as_str()) {
          return Verdict::bad(format!("{be:?}: {name} is {got:?}, expected {expect:?}\n{html}"));
        }
      }
      Verdict::ok(true, &(m, name, attempt, cell))
    },
  )
}

// ---- the command line resolver on a real directory tree ----

const SEGS: [&str; 12] = ["..", ".", "sub", "out", "base", "basex", "lout", "lsub", "lfile.adoc", "a.adoc", "b.adoc", "s.adoc"];

struct Tree {
  cli: PathBuf,
  root: PathBuf,
}

fn tree() -> &'static Tree {
  static TREE: OnceLock<Tree> = OnceLock::new();
  TREE.get_or_init(|| {
    let home = std::env::var("ADK_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"));
    let cli = home.join("mc/target/repo/debug/asciidork");
    let scratch = std::env::temp_dir().join(format!("adk-c08-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let root = scratch.canonicalize().unwrap();
    for d in ["base/sub", "out", "basex"] {
      std::fs::create_dir_all(root.join(d)).unwrap();
    }
    for d in ["", "base", "base/sub", "out", "basex"] {
      for f in ["a.adoc", "b.adoc", "s.adoc"] {
        std::fs::write(root.join(d).join(f), format!("MARK:{d}/{f}:\n")).unwrap();
      }
    }
    use std::os::unix::fs::symlink;
    let _ = symlink("../out", root.join("base/lout"));
    let _ = symlink("../out/s.adoc", root.join("base/lfile.adoc"));
    let _ = symlink("sub", root.join("base/lsub"));
    let _ = symlink("../sub/b.adoc", root.join("base/sub/lfile.adoc"));
    let _ = symlink("../base", root.join("out/base"));
    Tree { cli, root }
  })
}

pub fn cleanup() {
  let dir = std::env::temp_dir().join(format!("adk-c08-{}", std::process::id()));
  if dir.is_dir() {
    let _ = std::fs::remove_dir_all(&dir);
  }
}

/// (name, document directory, -B argument, working directory), the latter two relative to the root
const SETUPS: [(&str, &str, Option<&str>, &str); 6] = [
  ("default base", "base", None, ""),
  ("relative document", "base", None, "base"),
  ("document below the base", "base/sub", Some("base"), ""),
  ("relative base", "base", Some("."), "base"),
  ("base through a link", "base", Some("out/base"), ""),
  ("base with a trailing slash and dots", "base", Some("base/sub/../"), "base"),
];

struct Case {
  targets: Vec<String>,
  setup: usize,
  mode: SafeMode,
  strict: bool,
  how: usize,
}

const HOW: [&str; 3] = ["include", "include from a file in sub", "inline svg"];

fn run_cli(c: &Case) -> Verdict {
  let t = tree();
  let (_, docdir, base, cwd) = SETUPS[c.setup];
  let cwd = t.root.join(cwd);
  let base_dir = match base {
    Some(b) if b.ends_with('/') => t.root.join(b),
    Some(b) if b.starts_with('.') => cwd.join(b),
    Some(b) => t.root.join(b),
    None => t.root.join(docdir),
  };
  let canon_base = base_dir.canonicalize().unwrap();
  let mut doc = String::new();
  for (i, target) in c.targets.iter().enumerate() {
    match c.how {
      2 => doc.push_str(&format!("T{i}:\n\nimage::{target}[opts=inline,format=svg]\n\n")),
      _ => doc.push_str(&format!("T{i}:\n\ninclude::{target}[]\n\n")),
    }
  }
  let name = format!("doc-{}.adoc", std::thread::current().name().unwrap_or("m").len());
  let docfile = t.root.join(docdir).join(&name);
  let inner = canon_base.join("sub/inner.adoc");
  if c.how == 1 {
    std::fs::write(&inner, &doc).unwrap();
    std::fs::write(&docfile, "include::sub/inner.adoc[]\n").unwrap();
  } else {
    std::fs::write(&docfile, &doc).unwrap();
  }
  let mut cmd = Command::new(&t.cli);
  cmd.current_dir(&cwd).arg("-e").arg("-s").arg(format!("{:?}", c.mode).to_lowercase());
  if cwd.ends_with(docdir) {
    cmd.arg("-i").arg(&name);
  } else {
    cmd.arg("-i").arg(&docfile);
  }
  if let Some(b) = base {
    if b.starts_with('.') {
      cmd.arg("-B").arg(b);
    } else {
      cmd.arg("-B").arg(t.root.join(b));
    }
  }
  if c.strict {
    cmd.arg("--strict");
  }
  let out = match cmd.output() {
    Ok(o) => o,
    Err(e) => panic!("cannot run {:?}: {e}", t.cli),
  };
  let html = String::from_utf8_lossy(&out.stdout).to_string();
  let err = String::from_utf8_lossy(&out.stderr).to_string();
  if err.contains("panicked") {
    return Verdict::bad(format!("panic\n{err}"));
  }
  // reference: where the target leads, and whether that is inside
  let from = if c.how == 1 { canon_base.join("sub") } else { canon_base.clone() };
  let mut sig = vec![];
  let mut refused = false;
  for (i, target) in c.targets.iter().enumerate() {
    // NB: relative to the base directory as given
    let full = if c.how == 1 { from.join(target) } else { base_dir.join(target) };
    let real = full.canonicalize().ok().filter(|p| p.is_file());
    let inside = real.as_ref().is_some_and(|p| p.starts_with(&canon_base));
    let readable = c.mode != SafeMode::Secure && real.is_some() && (c.mode == SafeMode::Unsafe || inside);
    let mark = real.as_ref().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
    let mark = mark.trim_end();
    refused |= !readable;
    if c.strict {
      sig.push((mark.to_string(), readable));
      continue;
    }
    let Some(at) = html.find(&format!("T{i}:")) else { return Verdict::bad(format!("target {target} is lost\n{html}\n{err}")) };
    let part = &html[at + 1..];
    let part = &part[..part.find(&format!("T{}:", i + 1)).unwrap_or(part.len())];
    let got = part.find("MARK:").map(|n| &part[n..]).map(|p| &p[..p[5..].find(':').map(|n| n + 6).unwrap_or(p.len())]);
    let want = readable.then_some(mark);
    if got != want {
      return Verdict::bad(format!("target {target}: read {got:?}, expected {want:?}"));
    }
    sig.push((mark.to_string(), readable));
    note_transition(&(mode_nr(c.mode), readable, inside, c.how));
  }
  if c.strict && c.mode != SafeMode::Secure {
    if refused == out.status.success() {
      return Verdict::bad(format!("strict: refused should be {refused}, but\n{html}\n{err}"));
    }
    if refused && html.contains("MARK:") {
      return Verdict::bad(format!("strict: output although refused\n{html}"));
    }
    if !refused && c.targets.len() == 1 && !html.contains(&sig[0].0) {
      return Verdict::bad(format!("strict: no content\n{html}"));
    }
  }
  note_state(&(c.setup, mode_nr(c.mode), c.how));
  Verdict::ok(true, &(c.setup, mode_nr(c.mode), c.how, c.strict, sig))
}

fn all_targets(hi: usize) -> Vec<String> {
  (0..seq_count(SEGS.len(), 1, hi)).map(|i| seq_decode(i, SEGS.len(), 1, hi).into_iter().map(|k| SEGS[k]).collect::<Vec<_>>().join("/")).collect()
}

const BATCH: usize = 60;

fn cli(name: &str, hi: usize, strict: bool) -> Space {
  let rel = all_targets(hi);
  let batch = if strict { 1 } else { BATCH };
  // relative to the directory, and absolute from the root of the tree
  let n = rel.len() * 2;
  let batches = n.div_ceil(batch);
  Space::new(
    name,
    (batches * SETUPS.len() * MODES.len() * HOW.len()) as u64,
    move |i| {
      let mut r = Radix::new(i);
      let mode = *r.pick(&MODES);
      let setup = r.take(SETUPS.len());
      let how = r.take(HOW.len());
      let b = r.take(batches);
      let targets = (b * batch..n.min((b + 1) * batch))
        .map(|k| if k < rel.len() { rel[k].clone() } else { format!("@/{}", rel[k - rel.len()]) })
        .collect();
      Case { targets, setup, mode, strict, how }
    },
    |c| format!("{:?} strict={} {} ({}): {}", c.mode, c.strict, SETUPS[c.setup].0, HOW[c.how], c.targets.join(" ")),
    |c| {
      if !tree().cli.is_file() {
        panic!("the command line tool is not built");
      }
      if c.how == 1 && c.mode == SafeMode::Secure || c.strict && c.mode == SafeMode::Secure {
        return Verdict::Skip;
      }
      let root = tree().root.to_string_lossy().to_string();
      let targets = c.targets.iter().map(|t| t.replace('@', &root)).collect();
      run_cli(&Case { targets, ..*c })
    },
  )
}

/// custom stylesheets are read from below the working directory only
fn stylesheet(hi: usize) -> Space {
  let rel = all_targets(hi);
  const DIRS: [&str; 4] = ["", "sub", "..", "lout"];
  Space::new(
    "stylesheets on disk",
    (rel.len() * MODES.len() * DIRS.len()) as u64,
    move |i| {
      let mut r = Radix::new(i);
      (*r.pick(&MODES), *r.pick(&DIRS), rel[r.take(rel.len())].clone())
    },
    |(m, d, t)| format!("{m:?} stylesdir={d} stylesheet={t}"),
    |(mode, dir, target)| {
      let t = tree();
      let cwd = t.root.join("base");
      let mut doc = format!("= T\n:stylesheet: {target}\n");
      if !dir.is_empty() {
        doc.push_str(&format!(":stylesdir: {dir}\n"));
      }
      doc.push_str(":linkcss!:\n\nbody\n");
      let file = t.root.join("out/css-doc.adoc");
      std::fs::write(&file, &doc).unwrap();
      let out = Command::new(&t.cli).current_dir(&cwd).arg("-s").arg(format!("{mode:?}").to_lowercase()).arg("-i").arg(&file).output().unwrap();
      let html = String::from_utf8_lossy(&out.stdout).to_string();
      let real = cwd.join(dir).join(target).canonicalize().ok().filter(|p| p.is_file());
      let readable = real.as_ref().is_some_and(|p| *mode == SafeMode::Unsafe || p.starts_with(&cwd));
      let mark = real.as_deref().map(|p: &Path| std::fs::read_to_string(p).unwrap()).unwrap_or_default();
      let got = html.find("MARK:").map(|n| html[n..].lines().next().unwrap_or("").to_string());
      let want = readable.then(|| mark.trim_end().to_string());
      if got != want {
        return Verdict::bad(format!("shown {got:?}, expected {want:?}\n{}", String::from_utf8_lossy(&out.stderr)));
      }
      Verdict::ok(readable, &(mark, mode_nr(*mode), dir))
    },
  )
}

pub fn prop() -> Prop {
  let _ = AttrValue::Bool(true);
  Prop {
    id: "C08",
    level: "model_checking",
    rule: "every safe mode x every way to name something to read x every kind of target x every way to allow uris; every path of up to the bound of segments over a tree with links, on the real command line tool",
    assumptions: &["the file system of the sandbox is case sensitive"],
    spaces: |t| {
      vec![
        reads(),
        docinfo(),
        intrinsic(),
        cli("targets on disk", t.pick(3, 4), false),
        cli("targets on disk, strict", t.pick(2, 3), true),
        stylesheet(t.pick(2, 3)),
      ]
    },
  }
}
