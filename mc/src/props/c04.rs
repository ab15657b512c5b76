//! Line-range selection and reindentation of included and verbatim text.
use super::*;
use crate::adoc::*;
use crate::engine::*;

const ITEMS: [&str; 14] =
  ["1", "2", "4", "1..2", "2..3", "3..3", "2..", "3..-1", "1..-1", "9", "2..9", "3..2", "x", ""];

/// reference: does the selection list name line n (1-based)? None = whole file
fn selects(list: &[&str]) -> Option<Vec<(u64, u64)>> {
  let mut v = vec![];
  for it in list {
    let it = it.trim();
    match it.split_once("..") {
      Some((a, b)) => {
        let Ok(a) = a.parse::<u64>() else { continue };
        let b = if b.is_empty() || b == "-1" {
          u64::MAX
        } else {
          match b.parse::<u64>() {
            Ok(b) if a <= b => b,
            _ => continue,
          }
        };
        v.push((a, b));
      }
      None => {
        if let Ok(n) = it.parse::<u64>() {
          v.push((n, n))
        }
      }
    }
  }
  if v.is_empty() { None } else { Some(v) }
}

fn reindent(lines: &[String], indent: usize) -> Vec<String> {
  let ind = |l: &str| l.len() - l.trim_start_matches(' ').len();
  let min = lines.iter().filter(|l| !l.trim().is_empty()).map(|l| ind(l)).min().unwrap_or(0);
  lines
    .iter()
    .map(|l| if l.trim().is_empty() { String::new() } else { format!("{}{}", " ".repeat(indent), &l[min..]) })
    .collect()
}

fn strip_blank_ends(mut v: Vec<String>) -> Vec<String> {
  while v.first().is_some_and(|l| l.is_empty()) {
    v.remove(0);
  }
  while v.last().is_some_and(|l| l.is_empty()) {
    v.pop();
  }
  v
}

#[derive(Clone)]
struct Case {
  lines: Vec<String>,
  sel: Option<Vec<&'static str>>,
  style: usize,
  ending: usize,
  indent: Option<usize>,
  ext: &'static str,
  tagged: bool,
}

impl Case {
  fn directive(&self) -> String {
    let mut a = vec![];
    if let Some(s) = &self.sel {
      a.push(match self.style {
        0 => format!("lines=\"{}\"", s.join(",")),
        1 => format!("lines={}", s.join(";")),
        2 => format!("lines=\"{}\"", s.join(", ")),
        _ => format!("lines=\" {} \"", s.join(" ; ")),
      });
    }
    if self.tagged {
      a.push("tag=nope".into());
    }
    if let Some(i) = self.indent {
      a.push(format!("indent={i}"));
    }
    format!("include::f{}[{}]", self.ext, a.join(","))
  }
  fn file(&self) -> String {
    match self.ending {
      0 => self.lines.iter().map(|l| format!("{l}\n")).collect(),
      1 => self.lines.join("\n"),
      _ => self.lines.iter().map(|l| format!("{l}\r\n")).collect(),
    }
  }
  fn doc(&self) -> String {
    format!("before\n\n----\n{}\n----\n\nafter\n", self.directive())
  }
  fn describe(&self) -> String {
    format!("{} with f{} = {:?}", self.directive(), self.ext, self.file())
  }
  fn check(&self) -> Verdict {
    let name = format!("/base/f{}", self.ext);
    let file = self.file();
    let job = Job::strict().with_files(&[(&name, &file)]);
    let html = job.html(&self.doc(), Be::Dr);
    let ranges = self.sel.as_ref().and_then(|s| selects(s));
    let mut want: Vec<String> = self
      .lines
      .iter()
      .enumerate()
      .filter(|(i, _)| {
        ranges.as_ref().is_none_or(|r| r.iter().any(|(a, b)| (*a..=*b).contains(&(*i as u64 + 1))))
      })
      .map(|(_, l)| l.clone())
      .collect();
    let n = want.len();
    note_state(&(n, self.lines.len()));
    for i in 0..self.lines.len() {
      let sel = ranges.as_ref().is_none_or(|r| r.iter().any(|(a, b)| (*a..=*b).contains(&(i as u64 + 1))));
      note_transition(&(i, sel, self.lines[i].is_empty(), self.indent));
    }
    if let Some(i) = self.indent {
      want = reindent(&want, i);
    }
    let want = strip_blank_ends(want);
    let got = pre_lines(&html);
    if got != want {
      return Verdict::bad(format!("got {got:?}, expected {want:?}"));
    }
    if words(&html).first().map(|s| s.as_str()) != Some("before")
      || words(&html).last().map(|s| s.as_str()) != Some("after")
    {
      return Verdict::bad("text around the block lost");
    }
    Verdict::ok(self.sel.is_some() || self.indent.is_some(), &(want, self.indent, self.sel.is_some()))
  }
}

const IND: [&str; 5] = ["", "a", "  b", "    c d", "      e"];

fn lines_space(maxn: usize, maxsel: usize) -> Space {
  let nfile: u64 = (0..=maxn).map(|n| 1u64 << n).sum();
  let nsel = seq_count(ITEMS.len(), 1, maxsel);
  Space::new(
    "line ranges",
    nfile * nsel,
    move |i| {
      let sel = seq_decode(i % nsel, ITEMS.len(), 1, maxsel);
      let mut f = i / nsel;
      let mut n = 0;
      while f >= 1 << n {
        f -= 1 << n;
        n += 1;
      }
      let lines = (0..n).map(|k| if f >> k & 1 == 1 { String::new() } else { format!("L{} x", k + 1) }).collect();
      let style = (i % 4) as usize;
      let sel: Vec<&str> = sel.iter().map(|k| ITEMS[*k]).collect();
      Case {
        lines,
        sel: Some(sel),
        style,
        ending: (i / 4 % 3) as usize,
        indent: None,
        ext: if i / 12 % 2 == 0 { ".txt" } else { ".rb" },
        tagged: i / 24 % 2 == 0,
      }
    },
    |c| c.describe(),
    |c| {
      // code files keep their carriage returns, an empty quoted list is no list
      // (an empty entry would also put two spaces into the attribute value)
      if c.style >= 2 && c.sel.as_ref().unwrap().contains(&"") {
        return Verdict::Skip;
      }
      if (c.ending == 2 && c.ext == ".rb") || c.sel.as_ref().unwrap().iter().all(|s| s.is_empty()) {
        return Verdict::Skip;
      }
      c.check()
    },
  )
}

fn indent_space(maxn: usize) -> Space {
  let nf = seq_count(IND.len(), 0, maxn);
  let sels: [Option<&[&str]>; 4] = [None, Some(&["2.."]), Some(&["1", "3"]), Some(&["2..3"])];
  Space::new(
    "reindented includes",
    nf * 4 * 5 * 2,
    move |i| {
      let mut r = Radix::new(i);
      let indent = [None, Some(0), Some(1), Some(2), Some(7)][r.take(5)];
      let sel = sels[r.take(4)].map(|s| s.to_vec());
      let ending = r.take(2);
      let lines =
        seq_decode(i / 40, IND.len(), 0, maxn).into_iter().map(|k| IND[k].to_string()).collect();
      Case { lines, sel, style: 0, ending, indent, ext: ".rb", tagged: false }
    },
    |c| c.describe(),
    |c| c.check(),
  )
}

const WRAPS: [(&str, &str); 6] = [
  ("----\n", "\n----\n"),
  ("....\n", "\n....\n"),
  ("```\n", "\n```\n"),
  ("----\n", "\n----"),
  ("----\n", "\n----\nafter text\n"),
  ("=====\n\n----\n", "\n----\n\n=====\n"),
];

fn block_space(maxn: usize) -> Space {
  let nf = seq_count(IND.len(), 1, maxn);
  let doc = |c: &(Vec<String>, Option<usize>, usize)| {
    let (a, b) = WRAPS[c.2];
    let attrs = c.1.map_or(String::new(), |i| format!("[indent={i}]\n"));
    // attributes go directly above the delimited block
    match a.strip_prefix("=====\n\n") {
      Some(rest) => format!("before\n\n=====\n\n{attrs}{rest}{}{b}", c.0.join("\n")),
      None => format!("before\n\n{attrs}{a}{}{b}", c.0.join("\n")),
    }
  };
  Space::new(
    "reindented verbatim blocks",
    nf * 5 * WRAPS.len() as u64,
    move |i| {
      let mut r = Radix::new(i);
      let indent = [None, Some(0), Some(1), Some(2), Some(7)][r.take(5)];
      let w = r.take(WRAPS.len());
      let lines: Vec<String> = seq_decode(i / (5 * WRAPS.len() as u64), IND.len(), 1, maxn)
        .into_iter()
        .map(|k| IND[k].to_string())
        .collect();
      (lines, indent, w)
    },
    doc,
    move |c| {
      let html = Job::strict().html(&doc(c), Be::Dr);
      let want = match c.1 {
        Some(i) => reindent(&c.0, i),
        None => c.0.clone(),
      };
      let want = strip_blank_ends(want);
      let got = pre_lines(&html);
      if got != want {
        return Verdict::bad(format!("got {got:?}, expected {want:?}"));
      }
      if WRAPS[c.2].1.contains("after text") != html.contains("after text") {
        return Verdict::bad("text after the block lost");
      }
      Verdict::ok(c.1.is_some(), &(want, c.1))
    },
  )
}

const ENC: [&str; 6] = ["a", "\u{e9}", "\u{1F600}", "\n", "z \u{4e2d}", "\u{feff}x"];

fn encoding_space(hi: usize) -> Space {
  let n = seq_count(ENC.len(), 1, hi);
  Space::new(
    "encodings",
    n * 6,
    move |i| {
      let t: String = seq_decode(i / 6, ENC.len(), 1, hi).into_iter().map(|k| ENC[k]).collect();
      (t, (i % 6) as usize)
    },
    |c| format!("{:?} encoded as {}", c.0, ["UTF-8", "UTF-8 BOM", "UTF-16LE BOM", "UTF-16BE BOM", "UTF-16LE attr", "invalid"][c.1]),
    |(t, enc)| {
      if t.starts_with('\u{feff}') {
        return Verdict::Skip;
      }
      let bytes: Vec<u8> = match enc {
        0 => t.bytes().collect(),
        1 => [0xEF, 0xBB, 0xBF].into_iter().chain(t.bytes()).collect(),
        2 => [0xFF, 0xFE].into_iter().chain(t.encode_utf16().flat_map(|u| u.to_le_bytes())).collect(),
        3 => [0xFE, 0xFF].into_iter().chain(t.encode_utf16().flat_map(|u| u.to_be_bytes())).collect(),
        4 => t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
        _ => {
          // a byte that is invalid in UTF-8 after a byte order mark or not
          let mut b: Vec<u8> = if t.len() % 2 == 0 { vec![0xEF, 0xBB, 0xBF] } else { vec![] };
          b.extend(t.bytes());
          b.push(0xC3);
          b
        }
      };
      let attr = if *enc == 4 { "encoding=utf-16" } else { "" };
      let doc = format!("----\ninclude::f.txt[{attr}]\n----\n\nafter\n");
      let strict = Job::strict().with_bytes("/base/f.txt", &bytes).render(&doc, Be::Dr);
      if *enc == 5 {
        if strict.html.is_some() {
          return Verdict::bad("invalid UTF-8 accepted by a strict parse");
        }
        let loose = Job::default().with_bytes("/base/f.txt", &bytes).render(&doc, Be::Dr);
        if loose.html.is_none() || loose.diags.is_empty() {
          return Verdict::bad("invalid UTF-8 not reported");
        }
        return Verdict::ok(true, &(t.len() % 2, enc));
      }
      let Some(html) = strict.html else { return Verdict::bad(format!("rejected: {:?}", strict.diags)) };
      let want =
        strip_blank_ends(t.split('\n').map(|s| s.trim_end_matches([' ', '\t']).to_string()).collect());
      let got = pre_lines(&html);
      if got != want {
        return Verdict::bad(format!("got {got:?}, expected {want:?}"));
      }
      Verdict::ok(true, &(t, enc))
    },
  )
}

pub fn prop() -> Prop {
  Prop {
    id: "C04",
    level: "model_checking",
    rule: "every file shape x every list of line ranges; every indentation shape x indent value, for includes and for \
           verbatim blocks; every text x encoding; nontrivial = a selection, an indent or an encoding is applied; \
           distinct = distinct (resulting lines, indent)",
    assumptions: &["indentation consists of spaces", "code files keep carriage returns (only AsciiDoc and .txt are normalized)"],
    spaces: |t| vec![lines_space(t.pick(4, 6), 3), indent_space(t.pick(4, 6)), block_space(t.pick(4, 6)), encoding_space(t.pick(3, 5))],
  }
}
