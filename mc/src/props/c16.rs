//! Identifiers and cross references.
use super::*;
use crate::adoc::*;
use crate::engine::*;
use crate::html::{self, El};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug)]
enum D {
  /// a heading of a section without an id: level, title
  Auto(u8, &'static str),
  /// a heading with an id: level, id, title, reftext
  Sect(u8, &'static str, &'static str, Option<&'static str>),
  /// a discrete heading
  Disc(Option<&'static str>, &'static str),
  /// whatever else has an id, and the text of a reference to it
  Id(&'static str, Option<&'static str>),
  Prefix(&'static str),
  Sep(&'static str),
  SectIds(bool),
}
use D::*;

const ITEMS: [(&str, &[D]); 52] = [
  ("== S", &[Auto(1, "S")]),
  ("=== S", &[Auto(2, "S")]),
  ("=== T", &[Auto(2, "T")]),
  ("== S 2", &[Auto(1, "S 2")]),
  ("== *S*", &[Auto(1, "S")]),
  ("== S [[a]]q", &[Id("a", None), Auto(1, "S q")]),
  ("[#a]\n== S", &[Sect(1, "a", "S", None)]),
  ("[[a]]\n=== T", &[Sect(2, "a", "T", None)]),
  ("[[a,R t]]\n== S", &[Sect(1, "a", "S", Some("R t"))]),
  ("[#a,reftext=\"R t\"]\n== S", &[Sect(1, "a", "S", Some("R t"))]),
  ("[id=a]\n== S", &[Sect(1, "a", "S", None)]),
  ("[[_s]]\n== Q", &[Sect(1, "_s", "Q", None)]),
  ("[#a]\npara", &[Id("a", None)]),
  ("[#a]\n.Ti *x*\npara", &[Id("a", Some("Ti x"))]),
  ("[[a,R t]]\n.Ti\n====\nx\n====", &[Id("a", Some("R t"))]),
  (".Ti\n[[a]]\n----\nx\n----", &[Id("a", Some("Ti"))]),
  ("[[a,quote]]\npara", &[Id("a", Some("quote"))]),
  ("[quote#a]\n.Ti\npara", &[Id("a", Some("Ti"))]),
  ("[#a]\n.Ti\nimage::i.png[]", &[Id("a", Some("Ti"))]),
  ("[#a]\n* li", &[Id("a", None)]),
  ("[[a,R]]\n. li", &[Id("a", Some("R"))]),
  ("[#a]\n.Ti\nt:: d", &[Id("a", Some("Ti"))]),
  ("[#a]\n.Ti\n|===\n|x\n|===", &[Id("a", Some("Ti"))]),
  ("[#a]\n.Ti\nNOTE: x", &[Id("a", Some("Ti"))]),
  ("[NOTE#a]\n====\nx\n====", &[Id("a", None)]),
  ("====\n[#a]\n.Ti\nx\n====", &[Id("a", Some("Ti"))]),
  ("* x\n+\n[#a]\n.Ti\ny", &[Id("a", Some("Ti"))]),
  ("x [[a]]y", &[Id("a", None)]),
  ("x [[a,R t]]y", &[Id("a", Some("R t"))]),
  ("x anchor:a[] y", &[Id("a", None)]),
  ("x anchor:a[R] y", &[Id("a", Some("R"))]),
  ("x [#a]#t u# y", &[Id("a", Some("t u"))]),
  ("x [#a]*t* y", &[Id("a", Some("t"))]),
  ("x [[a]]y anchor:b[B] z", &[Id("a", None), Id("b", Some("B"))]),
  ("[#b]\n.Ti [[a]]q\npara", &[Id("a", None), Id("b", Some("Ti q"))]),
  ("[discrete]\n== S", &[Disc(None, "S")]),
  ("[discrete#a]\n=== S", &[Disc(Some("a"), "S")]),
  ("[#_s]\npara", &[Id("_s", None)]),
  ("x [[_s]]y", &[Id("_s", None)]),
  ("x [[_s_2,R]]y", &[Id("_s_2", Some("R"))]),
  ("* [[a,R]]x", &[Id("a", Some("R"))]),
  ("[[a]]t:: d", &[Id("a", None)]),
  ("|===\n|[[a,R]]x |[[b]]y\n|===", &[Id("a", Some("R")), Id("b", None)]),
  ("|===\na|[#a]\n.Ti\nx\n|===", &[Id("a", Some("Ti"))]),
  ("[%header]\n|===\n|[[a,R]]x\n\n|y\n|===", &[Id("a", Some("R"))]),
  ("include::def.adoc[]", &[Id("a", Some("Inc"))]),
  ("[bibliography]\n* [[[a]]] x", &[Id("a", Some("[a]"))]),
  ("[bibliography]\n* [[[a,1]]] x", &[Id("a", Some("[1]"))]),
  (":idprefix: p-", &[Prefix("p-")]),
  (":idprefix:", &[Prefix("")]),
  (":idseparator: -", &[Sep("-")]),
  (":sectids!:", &[SectIds(false)]),
];

/// source, id, text
const REFS: [(&str, &str, Option<&str>); 14] = [
  ("<<a>>", "a", None),
  ("<<a,X *y*>>", "a", Some("X y")),
  ("<<a,>>", "a", None),
  ("xref:a[]", "a", None),
  ("xref:#a[Z]", "a", Some("Z")),
  ("<<#b>>", "b", None),
  ("<<_s>>", "_s", None),
  ("xref:_s_2[]", "_s_2", None),
  ("<<_s_2_2>>", "_s_2_2", None),
  ("<<_t>>", "_t", None),
  ("<<p-s>>", "p-s", None),
  ("<<s>>", "s", None),
  ("<<_s_3,N>>", "_s_3", Some("N")),
  ("<<_s-2>>", "_s-2", None),
];

struct Model {
  text: BTreeMap<String, Option<String>>,
  count: BTreeMap<String, u32>,
  dups: Vec<String>,
  toc: Vec<(String, String)>,
}

fn model(items: &[usize]) -> Option<Model> {
  let mut m = Model { text: BTreeMap::new(), count: BTreeMap::new(), dups: vec![], toc: vec![] };
  let (mut prefix, mut sep, mut sectids) = ("_".to_string(), "_".to_string(), true);
  let mut level = 0;
  for i in items {
    for d in ITEMS[*i].1 {
      let before = hash(&(&m.text, level, &prefix, &sep, sectids));
      let reg = |m: &mut Model, id: &str, text: Option<&str>| {
        *m.count.entry(id.into()).or_default() += 1;
        if m.text.contains_key(id) {
          m.dups.push(id.into());
        } else {
          m.text.insert(id.into(), text.map(|t| t.into()));
        }
      };
      let auto = |m: &mut Model, title: &str| -> Option<String> {
        if !sectids {
          return None;
        }
        let words: Vec<String> = title.split(' ').map(|w| w.to_lowercase()).collect();
        let base = format!("{prefix}{}", words.join(&sep));
        let mut id = base.clone();
        let mut k = 2;
        while m.text.contains_key(&id) {
          id = format!("{base}{sep}{k}");
          k += 1;
        }
        reg(m, &id, Some(title));
        Some(id)
      };
      match *d {
        Auto(l, t) => {
          if l > level + 1 {
            return None;
          }
          level = l;
          if let Some(id) = auto(&mut m, t) {
            m.toc.push((format!("#{id}"), t.into()));
          } else {
            m.toc.push(("".into(), t.into()));
          }
        }
        Sect(l, id, t, r) => {
          if l > level + 1 {
            return None;
          }
          level = l;
          reg(&mut m, id, r.or(Some(t)));
          m.toc.push((format!("#{id}"), t.into()));
        }
        Disc(id, t) => match id {
          Some(id) => reg(&mut m, id, Some(t)),
          None => {
            auto(&mut m, t);
          }
        },
        Id(id, t) => reg(&mut m, id, t),
        Prefix(p) => prefix = p.into(),
        Sep(p) => sep = p.into(),
        SectIds(b) => sectids = b,
      }
      let after = hash(&(&m.text, level, &prefix, &sep, sectids));
      note_state(&after);
      note_transition(&(before, i, after));
    }
  }
  Some(m)
}

fn source(items: &[usize], toc: bool) -> String {
  let refs: Vec<&str> = REFS.iter().map(|r| r.0).collect();
  let refs = refs.join(" / ");
  let mut d = String::new();
  if toc {
    d += "= Doc\n:toc:\n\n";
  }
  d += &format!("[.refs]\n{refs}\n\n");
  for i in items {
    d += &format!("{}\n\n", ITEMS[*i].0);
  }
  d + &format!("[.refs]\n{refs}\n")
}

fn job() -> Job {
  Job { embedded: true, ..Job::default() }.with_files(&[("/base/def.adoc", "[[a,Inc]]\nincluded\n")])
}

fn links(e: &El, out: &mut Vec<(String, String)>) {
  let mut v = vec![];
  e.find_all(&|x| x.tag == "a", &mut v);
  for a in v {
    if let Some(h) = a.attr("href") {
      out.push((h.to_string(), a.text()));
    }
  }
}

fn check(items: &[usize], toc: bool) -> Verdict {
  let Some(m) = model(items) else { return Verdict::Skip };
  let doc = source(items, toc);
  for be in BACKENDS {
    let out = job().render(&doc, be);
    let html = match out.html {
      Some(h) => h,
      None => return Verdict::bad("rejected"),
    };
    let nodes = match html::parse(&html) {
      Ok(n) => n,
      Err(e) => return Verdict::bad(format!("malformed: {e}\n{html}")),
    };
    // the elements having an id
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    for e in html::select(&nodes, |e| e.attr("id").is_some()) {
      let id = e.attr("id").unwrap();
      if !["toc", "toctitle", "toc-title", "preamble"].contains(&id) {
        *seen.entry(id.to_string()).or_default() += 1;
      }
    }
    if seen != m.count {
      return Verdict::bad(format!("ids {seen:?}, expected {:?}", m.count));
    }
    // references
    let mut got = vec![];
    for e in html::select(&nodes, |e| e.has_class("refs")) {
      links(e, &mut got);
    }
    let mut want = vec![];
    for _ in 0..2 {
      for (_, id, t) in REFS {
        let text = match t {
          Some(t) => t.to_string(),
          None => m.text.get(id).cloned().flatten().unwrap_or(format!("[{id}]")),
        };
        want.push((format!("#{id}"), text));
      }
    }
    if got != want {
      let at = got.iter().zip(&want).position(|(a, b)| a != b);
      return Verdict::bad(format!("{be:?}: reference {at:?}: {:?}, expected {:?}", at.map(|i| &got[i]), at.map(|i| &want[i])));
    }
    if toc {
      let mut got = vec![];
      for e in html::select(&nodes, |e| e.attr("id") == Some("toc")) {
        links(e, &mut got);
      }
      if got != m.toc && m.toc.iter().all(|t| !t.0.is_empty()) {
        return Verdict::bad(format!("{be:?}: table of contents {got:?}, expected {:?}", m.toc));
      }
    }
    let missing: BTreeSet<String> = REFS.iter().filter(|r| !m.text.contains_key(r.1)).map(|r| r.1.to_string()).collect();
    let mut gm = BTreeSet::new();
    let mut dups = 0;
    for d in &out.diags {
      if let Some(id) = d.message.strip_prefix("Invalid cross reference, no anchor found for `") {
        gm.insert(id.trim_end_matches('`').to_string());
      } else if d.message.starts_with("Duplicate") {
        dups += 1;
      } else {
        return Verdict::bad(format!("unexpected diagnostic {d:?}"));
      }
    }
    if gm != missing {
      return Verdict::bad(format!("diagnosed references {gm:?}, expected {missing:?}"));
    }
    if dups != m.dups.len() {
      return Verdict::bad(format!("{dups} ids diagnosed as duplicates, expected {:?}", m.dups));
    }
  }
  Verdict::ok(!items.is_empty(), &(items.len(), m.text.keys().collect::<Vec<_>>(), m.text.values().collect::<Vec<_>>(), m.dups.len()))
}

/// characters of a title
const SLUG: [&str; 13] = ["S", "b", "2", " ", "-", ".", ",", "_", "é", "&", "!", "(", "<"];
/// prefix, separator; None: not set
const SLUGCFG: [(Option<&str>, Option<&str>); 9] =
  [(None, None), (Some(""), None), (None, Some("")), (Some(""), Some("")), (None, Some("-")), (Some("p-"), Some("-")), (Some(""), Some("-")), (Some("x"), Some(".")), (None, Some("~x"))];

fn check_slug(title: &str, cfg: usize) -> Verdict {
  let cs: Vec<char> = title.chars().collect();
  let word = |c: Option<&char>| c.is_some_and(|c| c.is_alphanumeric());
  // underscores that may format, and character sequences that are replaced
  let odd = cs.iter().enumerate().any(|(i, c)| *c == '_' && !(i > 0 && word(cs.get(i - 1)) && word(cs.get(i + 1))));
  if odd || title.contains("--") || title.contains("<-") || title.contains("...") || title.starts_with(' ') || title.ends_with(' ') || !cs.iter().any(|c| c.is_alphanumeric()) {
    return Verdict::Skip;
  }
  let (prefix, sep) = SLUGCFG[cfg];
  let pre = prefix.unwrap_or("_");
  let mut id = pre.to_string();
  id.extend(title.to_lowercase().chars().filter(|c| c.is_alphanumeric() || " -._".contains(*c)));
  let sep = sep.unwrap_or("_").chars().next();
  match sep {
    None => id.retain(|c| c != ' '),
    Some(sep) => {
      // a run of blanks, dots, hyphens and separators amounts to one separator
      let run = |c: char| " .-".contains(c) || c == sep;
      let mut o = String::new();
      for c in id.chars() {
        match (run(c), o.ends_with(sep)) {
          (true, true) => {}
          (true, false) => o.push(sep),
          _ => o.push(c),
        }
      }
      if o.ends_with(sep) {
        o.pop();
      }
      if pre.is_empty() && o.starts_with(sep) {
        o.remove(0);
      }
      id = o;
    }
  }
  let again = format!("{id}{}2", sep.map(String::from).unwrap_or_default());
  let mut doc = String::new();
  for (n, v) in [("idprefix", prefix), ("idseparator", SLUGCFG[cfg].1)] {
    if let Some(v) = v {
      doc += &format!(":{n}: {v}\n");
    }
  }
  doc += &format!("\n== {title}\n\n== {title}\n");
  for be in BACKENDS {
    let html = Job { embedded: true, ..Job::default() }.html(&doc, be);
    let ids: Vec<String> = html::select(&html::parse(&html).unwrap(), |e| e.attr("id").is_some()).iter().map(|e| e.attr("id").unwrap().to_string()).collect();
    if ids != [id.clone(), again.clone()] {
      return Verdict::bad(format!("ids {ids:?}, expected {id:?} and {again:?}"));
    }
  }
  Verdict::ok(true, &id)
}

fn slugs(k: usize) -> Space {
  let n = SLUG.len();
  let c = SLUGCFG.len();
  let case = move |i: u64| (seq_decode(i / c as u64, n, 1, k).into_iter().map(|j| SLUG[j]).collect::<String>(), (i % c as u64) as usize);
  Space::new("slugs", seq_count(n, 1, k) * c as u64, case, |(t, c)| format!("[idprefix, idseparator: {:?}] {t}", SLUGCFG[*c]), |(t, c)| check_slug(t, *c))
}

pub fn prop() -> Prop {
  Prop {
    id: "C16",
    level: "model_checking",
    rule: "every sequence of items with ids up to the bound, between two lists of references; nontrivial = with items",
    assumptions: &[],
    spaces: |t| {
      let all: Vec<usize> = (0..ITEMS.len()).collect();
      // what determines generated ids
      let auto: Vec<usize> = all.iter().copied().filter(|i| ["== S", "=== S", "=== T", "== S 2", "[[_s]]\n== Q", "[discrete]\n== S", "x [[_s_2,R]]y", "[#_s]\npara", ":idprefix:", ":idseparator: -", ":sectids!:"].contains(&ITEMS[*i].0)).collect();
      vec![space("ids", all.clone(), t.pick(3, 3), false), space("toc", all, t.pick(2, 3), true), space("generated", auto.clone(), t.pick(4, 6), false), space("generated, toc", auto, t.pick(4, 6), true), slugs(t.pick(4, 5))]
    },
  }
}

fn space(name: &str, pool: Vec<usize>, k: usize, toc: bool) -> Space {
  let n = pool.len();
  Space::new(
    name,
    seq_count(n, 0, k),
    move |i| seq_decode(i, n, 0, k).into_iter().map(|j| pool[j]).collect::<Vec<usize>>(),
    move |c| format!("{}{}", if toc { ":toc:\n\n" } else { "" }, c.iter().map(|i| ITEMS[*i].0).collect::<Vec<_>>().join("\n\n")),
    move |c| check(c, toc),
  )
}
