//! Links: what is recognized as a link, where it points and where it ends.
use crate::adoc::*;
use crate::engine::*;
use crate::html;
use crate::props::c02::seqs_with;

const URLTOK: [&str; 22] = [
  "a", ".", ",", "?", "!", ":", ";", "/", "(", ")", "=", "&", "-", "_", "%20", " ", "[t]", "[]", " http://", "\u{e9}", "c:8", "b/",
];

#[derive(Debug, PartialEq)]
struct Link {
  href: String,
  text: String,
  bare: bool,
}

/// reference: the links of one line of text, and the text that remains visible (links included)
fn model(line: &str, scheme: &str) -> (Vec<Link>, String) {
  let mut links = vec![];
  let mut text = String::new();
  let mut pos = 0;
  while let Some(at) = line[pos..].find(scheme).map(|n| n + pos) {
    let prev = line[..at].chars().last();
    let body = &line[at + scheme.len()..];
    let end_run = body.find([' ', '[', ']', '<']).unwrap_or(body.len());
    let run = &body[..end_run];
    let eligible = prev.is_none_or(|c| " >()[];".contains(c));
    text.push_str(&line[pos..at]);
    pos = at + scheme.len();
    let macro_end = body[end_run..].strip_prefix('[').and_then(|b| b.find(']').map(|n| (b[..n].to_string(), end_run + n + 2)));
    match macro_end {
      Some((label, len)) if eligible && !run.is_empty() => {
        let href = format!("{scheme}{run}");
        let bare = label.is_empty();
        let label = if bare { href.clone() } else { label };
        text.push_str(&label);
        links.push(Link { href, text: label, bare });
        pos += len;
      }
      _ => {
        let mut t = run.trim_end_matches([',', '.', '?', '!', ')']);
        if let Some(s) = t.strip_suffix([':', ';']) {
          t = s.strip_suffix(')').unwrap_or(s);
        }
        let escaped = prev == Some('\\');
        if escaped {
          text.pop();
        }
        if eligible && !t.is_empty() {
          links.push(Link { href: format!("{scheme}{t}"), text: format!("{scheme}{t}"), bare: true });
        }
        text.push_str(&format!("{scheme}{t}"));
        pos += t.len();
      }
    }
  }
  text.push_str(&line[pos..]);
  (links, text)
}

fn links_of(tree: &[html::Node]) -> Vec<Link> {
  html::select(tree, |e| e.tag == "a")
    .into_iter()
    .map(|a| Link {
      href: a.attr("href").unwrap_or("").to_string(),
      text: a.text(),
      bare: a.has_class("bare"),
    })
    .collect()
}

fn check(line: &str, scheme: &str, expect: (Vec<Link>, String)) -> Verdict {
  let job = Job::default();
  let norm = |t: &str| t.split_whitespace().collect::<Vec<_>>().join(" ");
  for be in BACKENDS {
    let out = job.html(&format!("{line}\n"), be);
    let tree = match html::parse(&out) {
      Ok(t) => t,
      Err(e) => return Verdict::bad(e),
    };
    let got = links_of(&tree);
    if got != expect.0 {
      return Verdict::bad(format!("{be:?}: links {got:?}, expected {:?}\n{out}", expect.0));
    }
    let text = html::visible_text(&tree);
    if norm(&text) != norm(&expect.1) {
      return Verdict::bad(format!("{be:?}: text {text:?}, expected {:?}\n{out}", expect.1));
    }
  }
  let _ = scheme;
  Verdict::ok(!expect.0.is_empty(), &expect.1)
}

const TARGET: [&str; 13] = ["a", ".", "/", "?q=1", "&b", "#c", ":8", "%20", "-d", "\u{e9}", "(", ")", ","];
const LABEL: [&str; 12] = ["t", " ", "u", ",", "\\]", "<", "&", ".", "**b**", "\u{e9}", "\n", "z's"];
const LINKATTRS: [&str; 10] = [
  "", "^", ",role=r", ",window=_blank", ",opts=nofollow", ",window=w", ",window=w,opts=nofollow", ",role=\"r s\",window=_blank,opts=nofollow", "^,role=r", ",title=z",
];

/// `link:target[label,attrs]` and `scheme://target[label,attrs]`
fn macro_space(name: &str, head: &'static str, scheme: &'static str, thi: usize, lhi: usize) -> Space {
  let nt = seq_count(TARGET.len(), 1, thi);
  let nl = seq_count(LABEL.len(), 0, lhi);
  Space::new(
    name,
    nt * nl * LINKATTRS.len() as u64 * 2,
    move |i| {
      let mut r = Radix::new(i);
      let attrs = *r.pick(&LINKATTRS);
      let hide = r.take(2) == 1;
      let target: String = seq_decode(r.take(nt as usize) as u64, TARGET.len(), 1, thi).into_iter().map(|k| TARGET[k]).collect();
      let label: String = seq_decode(r.take(nl as usize) as u64, LABEL.len(), 0, lhi).into_iter().map(|k| LABEL[k]).collect();
      (target, label, attrs, hide)
    },
    move |(t, l, a, h)| format!("{}x {head}{scheme}{t}[{l}{a}] y\n", if *h { ":hide-uri-scheme:\n\n" } else { "" }),
    move |(target, label, attrs, hide)| {
      let src = format!("{head}{scheme}{target}[{label}{attrs}]");
      // an empty label before a comma, a line that looks like a block, or text quoting
      if !clean(&format!("{head}{scheme}{target}")) || !clean(label) || label.contains("\n\n") || label.contains("\n.") || label.starts_with('\n') || label.ends_with('\n') || format!("{head}{scheme}{target}").contains("//:") {
        return Verdict::Skip;
      }
      let href = format!("{scheme}{target}");
      let attrlist = attrs.contains('=');
      let mut text = label.replace("\\]", "]").replace('\n', " ");
      let caret = attrs.starts_with('^') && !(attrlist && label.contains(','));
      if attrlist {
        text = text.split(',').next().unwrap_or("").trim().to_string();
      }
      // the label is formatted like any text
      let text = text.replace("**b**", "b").replace("z's", "z\u{2019}s");
      let bare = text.trim().is_empty() && (attrlist || text.is_empty());
      let text = if bare { if *hide { target.clone() } else { href.clone() } } else { text };
      let _ = &caret;
      let window = if caret || attrs.contains("_blank") { Some("_blank") } else if attrs.contains("window=w") { Some("w") } else { None };
      let nofollow = attrs.contains("nofollow");
      let rel = match window {
        Some("_blank") if nofollow => Some("noopener nofollow"),
        Some("_blank") => Some("noopener"),
        None if nofollow => Some("nofollow"),
        _ => None,
      };
      let mut class: Vec<&str> = vec![];
      if bare {
        class.push("bare");
      }
      if attrs.contains("role=r") {
        class.push("r");
      } else if attrs.contains("role=\"r s\"") {
        class.extend(["r", "s"]);
      }
      let norm = |t: &str| t.split_whitespace().collect::<Vec<_>>().join(" ");
      let doc = format!("{}x {src} y\n", if *hide { ":hide-uri-scheme:\n\n" } else { "" });
      for be in BACKENDS {
        let out = Job::default().html(&doc, be);
        let tree = match html::parse(&out) {
          Ok(t) => t,
          Err(e) => return Verdict::bad(e),
        };
        let links = html::select(&tree, |e| e.tag == "a");
        let [a] = links[..] else { return Verdict::bad(format!("{be:?}: {} links instead of one\n{out}", links.len())) };
        let got = (a.attr("href"), norm(&a.text()), a.attr("target"), a.attr("rel"), a.classes());
        let want = (Some(href.as_str()), norm(&text), window, rel, class.clone());
        if got != want {
          return Verdict::bad(format!("{be:?}: link {got:?}, expected {want:?}\n{out}"));
        }
        let all = norm(&html::visible_text(&tree));
        if all != format!("x {} y", norm(&text)) && all != norm(&format!("x {text} y")) {
          return Verdict::bad(format!("{be:?}: text {all:?}\n{out}"));
        }
      }
      Verdict::ok(true, &src)
    },
  )
}

const ANGLE: [&str; 12] = ["a", ".", "/", "?q=1", "&b", ":8", " ", ",", ")", "!", "\u{e9}", ";"];

/// `<scheme://target>`: the brackets delimit the link and disappear
fn angle(hi: usize) -> Space {
  seqs_with("url in angle brackets", &ANGLE, 1, hi, |s| format!("x <http://{}> y", s.concat()), |d| {
    if !clean(d) {
      return Verdict::Skip;
    }
    let inner = &d[3..d.len() - 3];
    let target = &inner["http://".len()..];
    if !target.contains(' ') {
      let l = Link { href: inner.into(), text: inner.into(), bare: true };
      return check(d, "http://", (vec![l], format!("x {inner} y")));
    }
    // not a single word: an ordinary bare url
    let (mut links, mut text) = model(&format!("x ({inner}"), "http://");
    text = text.replacen('(', "<", 1) + "> y";
    links.retain(|l| l.href.len() > 7);
    check(d, "http://", (links, text))
  })
}

const LOCAL: [&str; 9] = ["a", "bc", "1", ".", "_", "+", ".a", "+1", "d_e"];
const DOMAIN: [&str; 8] = ["a", "bc", "1", "-", ".", ".co", ".info", ".x"];
const AFTER: [&str; 11] = ["", ".", ",", " y", ")", "!", ";", ": y", "?", "@", "@b"];
const BEFORE: [&str; 8] = ["", "x ", "(", "x, ", "\"", "\\", "x;", "="];

/// an address is a link to itself, whatever is around it
fn email(lhi: usize, dhi: usize) -> Space {
  // both parts begin and end with a word, separators do not adjoin
  fn all(toks: &[&str], hi: usize, ok: impl Fn(&str) -> bool) -> Vec<String> {
    let mut v: Vec<String> = (0..seq_count(toks.len(), 1, hi)).map(|i| seq_decode(i, toks.len(), 1, hi).into_iter().map(|k| toks[k]).collect()).filter(|s: &String| ok(s)).collect();
    v.sort();
    v.dedup();
    v
  }
  let parts = |s: &str, sep: &[char]| s.split(sep).all(|p| !p.is_empty());
  let locals = all(&LOCAL, lhi, |s| parts(s, &['.', '_', '+']));
  let domains = all(&DOMAIN, dhi, |s| parts(s, &['.', '-']) && s.rsplit('.').next().unwrap().bytes().all(|c| c.is_ascii_alphabetic()));
  Space::new(
    "email",
    (locals.len() * domains.len() * AFTER.len() * BEFORE.len()) as u64,
    move |i| {
      let mut r = Radix::new(i);
      let after = *r.pick(&AFTER);
      let before = *r.pick(&BEFORE);
      (before, locals[r.take(locals.len())].clone(), domains[r.take(domains.len())].clone(), after)
    },
    |(b, l, d, a)| format!("{b}{l}@{d}{a}\n"),
    |(before, local, domain, after)| {
      let tld = domain.rsplit('.').next().unwrap();
      let line = format!("{before}{local}@{domain}{after}");
      if !clean(&line) {
        return Verdict::Skip;
      }
      let address = domain.contains('.') && (2..=5).contains(&tld.len()) && !after.starts_with('@');
      // an escaped non-address, a prefix of the domain
      if !address && (*before == "\\" || domain.matches('.').count() > 1) {
        return Verdict::Skip;
      }
      let is = address && *before != "\\";
      let addr = format!("{local}@{domain}");
      let links = if is { vec![Link { href: format!("mailto:{addr}"), text: addr.clone(), bare: false }] } else { vec![] };
      let text = if address && *before == "\\" { line[1..].to_string() } else { line.clone() };
      check(&line, "", (links, text))
    },
  )
}

fn clean(s: &str) -> bool {
  // other syntax: replacements, index terms, entities, description lists
  const OTHER: [&str; 12] = ["--", "...", "((", "))", "://:", "://[", "::", ";;", "[[", "(c)", "->", "=>"];
  let entity = s.match_indices('&').any(|(i, _)| {
    let t = &s[i + 1..];
    let n = t.bytes().take_while(u8::is_ascii_alphanumeric).count();
    n > 0 && t[n..].starts_with(';')
  });
  !OTHER.iter().any(|o| s.contains(o)) && !entity && s.matches('_').count() < 2
}

pub fn prop() -> Prop {
  Prop {
    id: "C10",
    level: "model_checking",
    rule: "every line assembled from a prefix, a scheme and up to the bound of url tokens; both backends",
    assumptions: &[],
    spaces: |t| {
      let mut v = vec![];
      for (name, pre) in [("bare url after a space", "x "), ("bare url in parens", "x ("), ("bare url at the start", ""), ("url after a word", "xz"), ("escaped url", "x \\"), ("invalid link macro", "x link:")] {
        for scheme in ["http://", "irc://"] {
          if scheme == "irc://" && pre != "x " {
            continue;
          }
          v.push(seqs_with(
            &format!("{name} {scheme}"),
            &URLTOK,
            1,
            t.pick(4, 5),
            move |s| format!("{pre}{scheme}{}", s.concat()),
            move |d| {
              if !clean(d) || (scheme != "http://" && d.contains("http://")) || ((pre.contains('\\') || pre.contains("link:")) && d.contains('[')) {
                return Verdict::Skip;
              }
              check(d, scheme, model(d, scheme))
            },
          ));
        }
      }
      v.push(macro_space("link macro", "link:", "", t.pick(2, 3), t.pick(2, 3)));
      v.push(macro_space("link macro with a scheme", "link:", "http://", t.pick(2, 3), t.pick(2, 3)));
      v.push(macro_space("url macro", "", "https://", t.pick(2, 3), t.pick(2, 3)));
      v.push(angle(t.pick(4, 5)));
      v.push(email(t.pick(2, 4), t.pick(3, 4)));
      v
    },
  }
}
