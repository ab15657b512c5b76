//! Tables: every cell at its place, with its spec.
use super::*;
use crate::adoc::*;
use crate::engine::*;
use crate::html::{El, Node};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Spec {
  dup: Option<usize>,
  cs: Option<usize>,
  rs: Option<usize>,
  h: Option<char>,
  v: Option<char>,
  style: Option<char>,
}

fn num(s: &str) -> (Option<usize>, &str) {
  let n = s.chars().take_while(|c| c.is_ascii_digit()).count();
  (s[..n].parse().ok(), &s[n..])
}

/// a whole cell spec
fn spec(s: &str) -> Option<Spec> {
  let mut sp = Spec::default();
  let mut r = s;
  let (n, t) = num(r);
  if let (Some(n), Some(t)) = (n, t.strip_prefix('*')) {
    sp.dup = Some(n);
    r = t;
  }
  let (c, t) = num(r);
  if let (Some(c), Some(t)) = (c, t.strip_prefix('+')) {
    sp.cs = Some(c);
    r = t;
  } else if let Some(t) = t.strip_prefix('.') {
    let (k, t) = num(t);
    if let (Some(k), Some(t)) = (k, t.strip_prefix('+')) {
      sp.cs = c;
      sp.rs = Some(k);
      r = t;
    }
  }
  let align = |r: &str| r.chars().next().filter(|c| "<^>".contains(*c));
  if let Some(c) = align(r) {
    sp.h = Some(c);
    r = &r[1..];
  }
  if let Some(t) = r.strip_prefix('.') {
    if let Some(c) = align(t) {
      sp.v = Some(c);
      r = &t[1..];
    }
  }
  if let Some(c) = r.chars().next().filter(|c| "adehlms".contains(*c)) {
    sp.style = Some(c);
    r = &r[1..];
  }
  r.is_empty().then_some(sp)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Cell {
  th: bool,
  h: char,
  v: char,
  cs: usize,
  rs: usize,
  /// of the content: ` ` plain, e m s, a, l
  kind: char,
  paras: Vec<String>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Tab {
  cols: usize,
  head: Vec<Vec<Cell>>,
  body: Vec<Vec<Cell>>,
  foot: Vec<Vec<Cell>>,
}

fn show(t: &Tab) -> String {
  let row = |r: &Vec<Cell>| {
    r.iter()
      .map(|c| format!("{}{}{}{}{}{}[{}]", if c.th { "th" } else { "" }, if c.cs > 1 || c.rs > 1 { format!("{}.{}+", c.cs, c.rs) } else { String::new() }, c.h, c.v, c.kind, "", c.paras.join(" / ")))
      .collect::<Vec<_>>()
      .join(" ")
  };
  let part = |n: &str, rs: &Vec<Vec<Cell>>| if rs.is_empty() { String::new() } else { format!(" {n}: {}", rs.iter().map(row).collect::<Vec<_>>().join(" ; ")) };
  format!("{} cols{}{}{}", t.cols, part("head", &t.head), part("body", &t.body), part("foot", &t.foot))
}

/// a cell of the source: its spec, raw text, the line it starts on
type Raw = (Spec, String, usize);

/// the cells of a prefix-separated body; `None` where the text is none of the property's
fn psv(body: &str, sep: char) -> Option<Vec<Raw>> {
  let mut out: Vec<Raw> = vec![];
  let mut cur = String::new();
  let mut open: Option<(Spec, usize)> = None;
  let mut line = 0;
  let cs: Vec<char> = body.chars().collect();
  let mut i = 0;
  while i < cs.len() {
    let c = cs[i];
    if c == '\\' && cs.get(i + 1) == Some(&sep) {
      cur.push(sep);
      i += 2;
      continue;
    }
    if c == sep {
      // the run of non-blank characters before it
      let run = cur.chars().rev().take_while(|c| !c.is_whitespace()).count();
      let cut = cur.chars().count() - run;
      let tail: String = cur.chars().skip(cut).collect();
      let after_blank = cut > 0 || open.is_none();
      let sp = if after_blank && !tail.is_empty() && !tail.contains(sep) { spec(&tail) } else { None };
      if sp.is_none() && after_blank && tail.starts_with('\\') && spec(&tail[1..]).is_some() {
        return None;
      }
      let text: String = if sp.is_some() { cur.chars().take(cut).collect() } else { cur.clone() };
      match open.take() {
        Some((s, l)) => out.push((s, text, l)),
        None if text.trim().is_empty() => {}
        None => return None,
      }
      open = Some((sp.unwrap_or_default(), line));
      cur.clear();
    } else {
      cur.push(c);
      if c == '\n' {
        line += 1;
      }
    }
    i += 1;
  }
  if let Some((s, l)) = open {
    out.push((s, cur, l));
  } else if !cur.trim().is_empty() {
    return None;
  }
  Some(out)
}

#[derive(Clone, Debug, Default)]
struct ColSpec {
  h: char,
  v: char,
  width: Option<f64>,
  style: char,
}
impl ColSpec {
  fn new() -> Self {
    ColSpec { h: '<', v: '<', width: Some(1.0), style: 'd' }
  }
}

fn colspecs(cols: &str) -> Vec<ColSpec> {
  let mut out = vec![];
  let t = cols.trim();
  if !t.is_empty() && t.chars().all(|c| c.is_ascii_digit()) {
    return vec![ColSpec::new(); t.parse().unwrap()];
  }
  let sep = if cols.contains(',') { ',' } else { ';' };
  for c in cols.split(sep) {
    let mut r = c.trim();
    let mut s = ColSpec::new();
    let mut dup = 1;
    let (n, t) = num(r);
    if let (Some(n), Some(t)) = (n, t.strip_prefix('*')) {
      dup = n;
      r = t;
    }
    let align = |r: &str| r.chars().next().filter(|c| "<^>".contains(*c));
    if let Some(c) = align(r) {
      s.h = c;
      r = &r[1..];
    }
    if let Some(t) = r.strip_prefix('.') {
      if let Some(c) = align(t) {
        s.v = c;
        r = &t[1..];
      }
    }
    if let Some(t) = r.strip_prefix('~') {
      s.width = None;
      r = t;
    } else {
      let (n, t) = num(r);
      if let Some(n) = n {
        s.width = Some(n as f64);
        r = t.strip_prefix('%').unwrap_or(t);
      }
    }
    if let Some(c) = r.chars().next() {
      s.style = c;
      r = &r[1..];
    }
    assert!(r.is_empty(), "colspec {c}");
    for _ in 0..dup {
      out.push(s.clone());
    }
  }
  out
}

fn widths(cols: &[ColSpec], auto: bool) -> Vec<Option<f64>> {
  if auto {
    return vec![None; cols.len()];
  }
  let total: f64 = cols.iter().filter_map(|c| c.width).sum();
  let base = if cols.iter().any(|c| c.width.is_none()) { 100.0 } else { total };
  cols.iter().map(|c| c.width.map(|w| w * 100.0 / base)).collect()
}

struct Layout<'a> {
  cols: &'a [ColSpec],
  /// of the first row, where the columns are counted from it
  opts: &'a [&'a str],
  implicit_header: bool,
}

fn paras(text: &str) -> Vec<String> {
  let mut out = vec![String::new()];
  for l in text.lines() {
    if l.trim().is_empty() {
      if !out.last().unwrap().is_empty() {
        out.push(String::new());
      }
    } else {
      let p = out.last_mut().unwrap();
      if !p.is_empty() {
        p.push(' ');
      }
      p.push_str(&l.split_whitespace().collect::<Vec<_>>().join(" "));
    }
  }
  if out.last().unwrap().is_empty() {
    out.pop();
  }
  out
}

/// the table the cells make
fn layout(raw: &[Raw], lay: &Layout) -> Option<(Tab, Vec<ColSpec>)> {
  let mut cells: Vec<Raw> = vec![];
  for (s, t, l) in raw {
    for n in [s.dup, s.cs, s.rs] {
      if n == Some(0) || n.is_some_and(|n| n > 200) {
        return None;
      }
    }
    for _ in 0..s.dup.unwrap_or(1) {
      cells.push((s.clone(), t.clone(), *l));
    }
  }
  let first = raw.first()?.2;
  let cols = if lay.cols.is_empty() {
    let n = cells.iter().filter(|c| c.2 == first).map(|c| c.0.cs.unwrap_or(1)).sum();
    vec![ColSpec::new(); n]
  } else {
    lay.cols.to_vec()
  };
  let n = cols.len();
  let header = lay.opts.contains(&"header") || (lay.implicit_header && !lay.opts.contains(&"noheader"));
  let mut grid: Vec<Vec<bool>> = vec![];
  let mut rows: Vec<Vec<Cell>> = vec![];
  let mut it = cells.iter();
  let mut todo = it.next();
  // down to the last row that is covered to its end
  while todo.is_some() || grid.get(rows.len()).is_some_and(|r| r.iter().all(|x| *x)) {
    let r = rows.len();
    while grid.len() <= r + 250 {
      grid.push(vec![false; n]);
    }
    let mut row = vec![];
    while let (Some((s, t, _)), Some(col)) = (todo, grid[r].iter().position(|x| !x)) {
      let (cs, rs) = (s.cs.unwrap_or(1), s.rs.unwrap_or(1));
      if col + cs > n || (col..col + cs).any(|c| grid[r][c]) {
        return None;
      }
      for i in r..r + rs {
        for j in col..col + cs {
          grid[i][j] = true;
        }
      }
      note_state(&(r, grid[r].clone(), grid[r + 1].clone()));
      // the columns are numbered by the cells of the row
      let spec = &cols[col];
      let named = &cols[row.len()];
      if (spec.h, spec.v, spec.style) != (named.h, named.v, named.style) {
        return None;
      }
      // a block title
      if t.trim_start().starts_with('.') && (s.style == Some('a') || spec.style == 'a') {
        return None;
      }
      let style = if header && r == 0 { 'd' } else { s.style.unwrap_or(spec.style) };
      row.push(Cell {
        th: (header && r == 0) || style == 'h',
        h: s.h.unwrap_or(spec.h),
        v: s.v.unwrap_or(spec.v),
        cs,
        rs,
        kind: if "dh".contains(style) { ' ' } else { style },
        paras: paras(t),
      });
      todo = it.next();
    }
    note_transition(&(row.len(), lay.cols.len(), todo.is_none()));
    rows.push(row);
  }
  let mut tab = Tab { cols: n, ..Tab::default() };
  if header && !rows.is_empty() {
    let mut h = rows.remove(0);
    for c in &mut h {
      c.paras = if c.paras.is_empty() { vec![] } else { vec![c.paras.join(" ")] };
    }
    tab.head.push(h);
  }
  if lay.opts.contains(&"footer") {
    if rows.last().is_some_and(|r| r.is_empty()) {
      return None;
    }
    tab.foot.extend(rows.pop());
  }
  tab.body = rows;
  // empty texts have no wrapping
  for r in tab.head.iter_mut().chain(&mut tab.body).chain(&mut tab.foot) {
    for c in r {
      if c.paras.is_empty() && c.kind != 'a' && c.kind != 'l' {
        c.kind = ' ';
      }
      if c.kind == 'l' && !c.paras.is_empty() {
        c.paras = vec![c.paras.join(" ")];
      }
    }
  }
  Some((tab, cols))
}

fn implicit(body: &str, sep: Option<char>) -> bool {
  let ls: Vec<&str> = body.lines().collect();
  let ls: Vec<&str> = ls.iter().map(|l| l.trim_end()).collect();
  if ls[0].is_empty() || ls.len() < 2 || !ls[1].is_empty() {
    return false;
  }
  match (ls[1..].iter().find(|l| !l.is_empty()), sep) {
    (Some(l), Some(sep)) => l.trim_start().split_once(sep).is_some_and(|(s, _)| spec(s).is_some()),
    _ => true,
  }
}

fn cell_from(e: &El, be: Be) -> Result<Cell, String> {
  let cls = |p: &str| -> Result<char, String> {
    let c = e.classes().into_iter().find(|c| c.starts_with(p)).ok_or(format!("no {p} on {e:?}"))?;
    Ok(match &c[p.len()..] {
      "left" | "top" => '<',
      "center" | "middle" => '^',
      "right" | "bottom" => '>',
      x => return Err(format!("class {x}")),
    })
  };
  let n = |k: &str| -> Result<usize, String> {
    match e.attr(k) {
      None => Ok(1),
      Some(v) => v.parse::<usize>().ok().filter(|n| *n > 1).ok_or(format!("{k}={v}")),
    }
  };
  let norm = |s: String| s.split_whitespace().collect::<Vec<_>>().join(" ");
  let mut c = Cell { th: e.tag == "th", h: cls("halign-")?, v: cls("valign-")?, cs: n("colspan")?, rs: n("rowspan")?, kind: ' ', paras: vec![] };
  let kids: Vec<&El> = e.els().collect();
  let is_a = kids.first().is_some_and(|k| k.has_class("content") || k.has_class("paragraph"))
    || (be == Be::H5 && kids.first().is_some_and(|k| k.tag == "p" && k.attrs.is_empty() && kids.len() == 1));
  if kids.first().is_some_and(|k| k.has_class("literal")) {
    c.kind = 'l';
    c.paras = vec![norm(e.text())];
  } else if is_a {
    c.kind = 'a';
    let mut ps = vec![];
    e.find_all(&|k| k.tag == "p", &mut ps);
    c.paras = ps.iter().map(|p| norm(p.text())).collect();
  } else {
    let mut ps: Vec<&El> = kids.iter().copied().filter(|k| k.tag == "p").collect();
    if ps.is_empty() {
      ps = vec![e];
    }
    for p in ps {
      let t = norm(p.text());
      let w: Vec<&El> = p.els().collect();
      let kind = match w.first() {
        Some(w) if norm(w.text()) == t && w.attrs.is_empty() => match w.tag.as_str() {
          "em" => 'e',
          "strong" => 's',
          "code" => 'm',
          x => return Err(format!("cell content <{x}>")),
        },
        _ => ' ',
      };
      if !c.paras.is_empty() && c.kind != kind {
        return Err(format!("paragraphs of one cell in different styles: {e:?}"));
      }
      c.kind = kind;
      c.paras.push(t);
    }
  }
  c.paras.retain(|p| !p.is_empty());
  Ok(c)
}

fn table_from(t: &El, be: Be) -> Result<(Tab, Vec<Option<f64>>), String> {
  let mut tab = Tab::default();
  let mut ws = vec![];
  for part in t.els() {
    let mut rows = vec![];
    if part.tag != "colgroup" && part.tag != "caption" {
      for tr in part.els() {
        if tr.tag != "tr" {
          return Err(format!("<{}> in <{}>", tr.tag, part.tag));
        }
        rows.push(tr.els().map(|e| cell_from(e, be)).collect::<Result<Vec<_>, _>>()?);
      }
      if rows.is_empty() {
        return Err(format!("empty <{}>", part.tag));
      }
    }
    match part.tag.as_str() {
      "caption" => {}
      "colgroup" => {
        for c in part.els() {
          ws.push(match c.attr("style") {
            None => None,
            Some(s) => Some(s.strip_prefix("width: ").and_then(|s| s.strip_suffix("%;")).and_then(|s| s.parse().ok()).ok_or(format!("style {s}"))?),
          });
        }
      }
      "thead" if tab.body.is_empty() && tab.foot.is_empty() => tab.head = rows,
      "tbody" if tab.foot.is_empty() => tab.body = rows,
      "tfoot" => tab.foot = rows,
      x => return Err(format!("<{x}> in table")),
    }
  }
  for c in tab.head.iter_mut().flatten().filter(|c| c.paras.len() > 1) {
    c.paras = vec![c.paras.join(" ")];
  }
  tab.cols = ws.len();
  Ok((tab, ws))
}

fn compare(doc: &str, want: &Tab, cols: &[ColSpec], auto: bool) -> Verdict {
  compare_in(&Job::default(), doc, want, cols, auto, false)
}
fn compare_in(job: &Job, doc: &str, want: &Tab, cols: &[ColSpec], auto: bool, nested: bool) -> Verdict {
  for be in BACKENDS {
    let out = job.render(doc, be);
    let html = match &out.html {
      Some(h) if out.diags.is_empty() => h,
      _ => return Verdict::bad(format!("{be:?}: {:?} {:?}", out.diags, out.html)),
    };
    let ns = match crate::html::parse(html) {
      Ok(n) => n,
      Err(e) => return Verdict::bad(e),
    };
    let ts = crate::html::select(&ns, |e| e.tag == "table");
    if ts.len() != 1 + nested as usize {
      return Verdict::bad(format!("{} tables\n{html}", ts.len()));
    }
    let (got, ws) = match table_from(ts[nested as usize], be) {
      Ok(t) => t,
      Err(e) => return Verdict::bad(format!("{be:?}: {e}\n{html}")),
    };
    let mut want = want.clone();
    if be == Be::H5 {
      // a single paragraph of an AsciiDoc cell looks like any other there
      for c in want.head.iter_mut().chain(&mut want.body).chain(&mut want.foot).flatten() {
        if c.kind == 'a' && c.paras.len() != 1 {
          c.kind = ' ';
        }
      }
    }
    if got != want {
      return Verdict::bad(format!("{be:?}: got      {}\nexpected {}\n{html}", show(&got), show(&want)));
    }
    let ww = widths(cols, auto);
    if ws.len() != ww.len() || ws.iter().zip(&ww).any(|(a, b)| a.is_some() != b.is_some() || a.unwrap_or(0.0) - b.unwrap_or(0.0) > 0.001 || b.unwrap_or(0.0) - a.unwrap_or(0.0) > 0.001) {
      return Verdict::bad(format!("{be:?}: column widths {ws:?}, expected {ww:?}"));
    }
    // the visible text outside of the table
    let all = crate::html::visible_text(&ns).split_whitespace().collect::<Vec<_>>().join(" ");
    let inside = crate::html::visible_text(&[Node::El(ts[0].clone())]).split_whitespace().collect::<Vec<_>>().join(" ");
    if all != inside {
      return Verdict::bad(format!("text outside of the table: {all}"));
    }
  }
  Verdict::ok(want.body.len() + want.head.len() > 1, &show(want))
}

/// a table with the given attribute list and body in psv
fn check_psv(opts: &'static [&'static str], cols: &str, body: &str) -> Verdict {
  let body_t = body.trim_end_matches('\n');
  if body_t.trim().is_empty() {
    return Verdict::Skip;
  }
  let Some(raw) = psv(body, '|') else { return Verdict::Skip };
  // superscript
  if raw.iter().any(|c| c.1.matches('^').count() > 1) {
    return Verdict::Skip;
  }
  let cs = if cols.is_empty() { vec![] } else { colspecs(cols) };
  if !cols.is_empty() && cs.is_empty() {
    return Verdict::Skip;
  }
  let lay = Layout { cols: &cs, opts, implicit_header: implicit(body, Some('|')) };
  let Some((tab, cs)) = layout(&raw, &lay) else { return Verdict::Skip };
  let doc = format!("{}|===\n{body}|===\n", attr_line(opts, cols));
  compare(&doc, &tab, &cs, opts.contains(&"autowidth"))
}

fn attr_line(opts: &[&str], cols: &str) -> String {
  let mut a = vec![];
  if !opts.is_empty() {
    a.push(opts.iter().map(|o| format!("%{o}")).collect::<String>());
  }
  if !cols.is_empty() {
    a.push(format!("cols=\"{cols}\""));
  }
  if a.is_empty() { String::new() } else { format!("[{}]\n", a.join(",")) }
}

const OPTS: [&[&str]; 5] = [&[], &["header"], &["footer"], &["header", "footer"], &["noheader"]];
const TOK: [&str; 14] = ["|", " ", "\n", "x", "a", "2+", ".2+", "2*", "^", ".>", "\\|", "s|", " |", "2"];
const GRID: [&str; 6] = ["|", "2+|", ".2+|", "2.2+|", "2*|", ".3+>|"];
const COLS: [&str; 16] = ["", "1", "3", "<", "^.>", "m", "2*", ">2e", "15%", "~", "2*^a", "l", "h", " 1 ", ".^s", "3*~"];
const CELL: [&str; 12] = ["", "d", "s", "e", "m", "h", "a", "l", ">", ".^", "^.>m", "<.>"];

fn tokens(name: &str, lo: usize, hi: usize, opts: &'static [&'static str], cols: &'static str) -> Space {
  Space::new(
    name,
    seq_count(TOK.len(), lo, hi),
    move |i| format!("|{}\n", seq_decode(i, TOK.len(), lo, hi).into_iter().map(|t| TOK[t]).collect::<String>()),
    move |c| format!("{}|===\n{c}|===\n", attr_line(opts, cols)),
    move |c| check_psv(opts, cols, c),
  )
}

fn grid(hi: usize) -> Space {
  let per = seq_count(GRID.len() * 2, 1, hi);
  let cols = ["", "2", "3", "1,1,1,1"];
  Space::new(
    "grid",
    per * (OPTS.len() * cols.len() * 2) as u64,
    move |i| {
      let mut r = Radix::new(i / per);
      let o = r.take(OPTS.len());
      let c = r.take(cols.len());
      let blank = r.take(2) == 1;
      let mut body = String::new();
      for (k, t) in seq_decode(i % per, GRID.len() * 2, 1, hi).into_iter().enumerate() {
        if t >= GRID.len() && k > 0 {
          body.pop();
          body.push(' ');
        }
        body.push_str(&format!("{}c{k}\n", GRID[t % GRID.len()]));
        if k == 0 && blank {
          body.push('\n');
        }
      }
      (o, cols[c], body)
    },
    |(o, c, b)| format!("{}|===\n{b}|===\n", attr_line(OPTS[*o], c)),
    |(o, c, b)| check_psv(OPTS[*o], c, b),
  )
}

fn columns(k: usize) -> Space {
  let n = seq_count(COLS.len(), 1, k);
  Space::new(
    "columns",
    n * (2 * 4 * CELL.len()) as u64,
    move |i| {
      let mut r = Radix::new(i / n);
      let sep = *r.pick(&[",", ";"]);
      let o = r.take(4);
      let cell = *r.pick(&CELL);
      (o, seq_decode(i % n, COLS.len(), 1, k).into_iter().map(|c| COLS[c]).collect::<Vec<_>>().join(sep), cell)
    },
    |(o, c, cell)| format!("{}|===\n{}|===\n", attr_line(OPTS2[*o], c), column_body(c, cell)),
    |(o, c, cell)| {
      if c.trim().is_empty() || c.contains("l") && cell.contains("a") {
        return Verdict::Skip;
      }
      check_psv(OPTS2[*o], c, &column_body(c, cell))
    },
  )
}

/// every alignment and style of a column against every one of a cell in it
fn specs() -> Space {
  const H: [&str; 4] = ["", "<", "^", ">"];
  const V: [&str; 4] = ["", ".<", ".^", ".>"];
  const S: [&str; 8] = ["", "d", "s", "e", "m", "h", "l", "a"];
  const PRE: [&str; 4] = ["", "2+", ".2+", "2*"];
  Space::new(
    "specs",
    (4 * 4 * 8 * 4 * 4 * 8 * 2 * 4) as u64,
    |i| {
      let mut r = Radix::new(i);
      let col = format!("{}{}1{}", r.pick(&H), r.pick(&V), r.pick(&S));
      let spec = format!("{}{}{}", r.pick(&H), r.pick(&V), r.pick(&S));
      let o = r.take(2);
      let pre = *r.pick(&PRE);
      (o, format!("1,{col},1"), format!("{pre}{spec}"), pre == "2+" || pre == "2*")
    },
    |(o, c, cell, wide)| format!("{}|===\n{}|===\n", attr_line(OPTS2[*o], c), spec_body(cell, *wide)),
    |(o, c, cell, wide)| {
      // whether a spanning or repeated cell is of the next column as well is left open
      if *wide && c.len() > 5 {
        return Verdict::Skip;
      }
      check_psv(OPTS2[*o], c, &spec_body(cell, *wide))
    },
  )
}
fn spec_body(cell: &str, wide: bool) -> String {
  let last = if wide { "" } else { "|w\n" };
  format!("|a |b |c\n|x\n{cell}|u v\n{last}|p\n|q\n|r\n")
}
const OPTS2: [&[&str]; 4] = [&[], &["header"], &["footer"], &["autowidth"]];

/// two rows of cells, the second with a cell of its own spec
fn column_body(cols: &str, cell: &str) -> String {
  let n = colspecs(cols).len();
  let mut b = String::new();
  for r in 0..3 {
    for c in 0..n {
      b.push_str(&format!("{}|{}\n", if r == 1 && c == n / 2 { cell } else { "" }, ["x y", "z", "u\n\nv"][(r + c) % 3]));
    }
  }
  b
}

/// the same data in every format
const TEXTS: [&str; 9] = ["x", "", " u v ", "S", "pSq", "\"q\"", "u\nv", "2+", "a"];
const FORMATS: [(&str, &str, char, char); 13] = [
  ("", "|===", '|', 'p'),
  ("format=psv", "|===", '|', 'p'),
  ("separator=!", "|===", '!', 'p'),
  ("separator=¦", "|===", '¦', 'p'),
  ("format=csv", "|===", ',', 'c'),
  ("", ",===", ',', 'c'),
  ("format=csv,separator=;", "|===", ';', 'c'),
  ("format=csv,separator=x", "|===", 'x', 'c'),
  ("format=tsv", "|===", '\t', 'c'),
  ("format=dsv", "|===", ':', 'd'),
  ("", ":===", ':', 'd'),
  ("format=dsv,separator=;", ":===", ';', 'd'),
  ("nested", "!===", '!', 'p'),
];

fn formats(rows: usize, cols: usize) -> Space {
  let n = (TEXTS.len() as u64).pow((rows * cols) as u32);
  Space::new(
    &format!("formats/{rows}x{cols}"),
    n * (FORMATS.len() * 6) as u64,
    move |i| {
      let mut r = Radix::new(i / n);
      let f = r.take(FORMATS.len());
      let layout = r.take(6);
      let mut d = Radix::new(i % n);
      (f, layout, cols, (0..rows * cols).map(|_| *d.pick(&TEXTS)).collect::<Vec<_>>())
    },
    |c| format_doc(c).map_or(String::new(), |d| d.0),
    |c| {
      let Some((doc, body, sep, style, has_cols)) = format_doc(c) else { return Verdict::Skip };
      let (f, lay, cols, texts) = c;
      let header = lay % 3 == 1;
      let raw: Vec<Raw> = if style == 'p' {
        match psv(&body, sep) {
          Some(r) => r,
          None => return Verdict::Skip,
        }
      } else {
        texts.iter().enumerate().map(|(i, t)| (Spec::default(), t.replace('S', &sep.to_string()), i / cols)).collect()
      };
      let cs = if has_cols { vec![ColSpec::new(); *cols] } else { vec![] };
      let imp = if header { implicit(&body, (style == 'p').then_some(sep)) } else { false };
      // a line of its own is blank
      if sep == '\t' && texts.chunks(*cols).any(|r| r.iter().all(|t| t.is_empty())) {
        return Verdict::Skip;
      }
      let Some((tab, cs)) = layout(&raw, &Layout { cols: &cs, opts: &[], implicit_header: imp }) else { return Verdict::Skip };
      compare_in(&Job::default(), &doc, &tab, &cs, false, FORMATS[*f].0 == "nested")
    },
  )
}

#[allow(clippy::type_complexity)]
fn format_doc((f, lay, cols, texts): &(usize, usize, usize, Vec<&str>)) -> Option<(String, String, char, char, bool)> {
  let (attrs, delim, sep, style) = FORMATS[*f];
  let has_cols = *lay >= 3;
  let mut body = String::new();
  for (i, t) in texts.iter().enumerate() {
    let t0 = t.replace('S', &sep.to_string());
    if sep == 'x' && *t == "x" {
      return None;
    }
    let first = i % cols == 0;
    let t = match style {
      'p' => format!("{sep}{}", t.replace('S', &format!("\\{sep}"))),
      'd' => {
        if t.contains('\n') {
          return None;
        }
        // an empty line is no row
        if *cols == 1 && t.is_empty() {
          return None;
        }
        format!("{}{}", if first { String::new() } else { sep.to_string() }, t.replace('S', &format!("\\{sep}")))
      }
      _ => {
        if *cols == 1 && t.is_empty() {
          return None;
        }
        let quote = t0.contains('"') || t0.contains('\n') || t0.contains(sep);
        format!("{}{}", if first { String::new() } else { sep.to_string() }, if quote { format!("\"{}\"", t0.replace('"', "\"\"")) } else { t0 })
      }
    };
    body.push_str(&t);
    if i % cols == cols - 1 {
      body.push('\n');
      if i + 1 == *cols && lay % 3 == 1 {
        body.push('\n');
      }
      if i + 1 == *cols && lay % 3 == 2 && style == 'p' {
        return None;
      }
    } else if style == 'p' && lay % 3 == 2 {
      body.push('\n');
    } else if style == 'p' {
      body.push(' ');
    }
  }
  if lay % 3 == 2 && !has_cols {
    return None;
  }
  let mut a: Vec<String> = vec![];
  if !attrs.is_empty() && attrs != "nested" {
    a.push(attrs.into());
  }
  if has_cols {
    a.push(format!("cols=\"{cols}*\""));
  }
  let al = if a.is_empty() { String::new() } else { format!("[{}]\n", a.join(",")) };
  let mut doc = format!("{al}{delim}\n{body}{delim}\n");
  if attrs == "nested" {
    doc = format!("|===\na|\n{doc}|===\n");
  }
  Some((doc, body, sep, style, has_cols))
}

/// classes and width of the table, from its attributes and those of the document
const LOOK: [&[&str]; 5] = [&["", "all", "ends", "sides", "none"], &["", "all", "rows", "cols", "none"], &["", "even", "odd", "hover", "all", "none"], &["", "50", "50%", "100%", "7"], &["", "left", "right"]];
fn look() -> Space {
  let n: usize = LOOK.iter().map(|l| l.len()).product();
  Space::new(
    "look",
    (n * 2 * 8) as u64,
    |i| {
      let mut r = Radix::new(i);
      let auto = r.take(2) == 1;
      let doc = r.take(8);
      (auto, doc, LOOK.iter().map(|l| *r.pick(l)).collect::<Vec<_>>())
    },
    |c| look_doc(c),
    |c| {
      let (auto, doc, v) = c;
      let pick = |i: usize, dflt: &'static str, of_doc: &'static str| if !v[i].is_empty() { v[i] } else if doc >> i & 1 == 1 { of_doc } else { dflt };
      let mut want = vec![format!("frame-{}", pick(0, "all", "sides")), format!("grid-{}", pick(1, "all", "rows"))];
      let width = v[3].trim_end_matches('%');
      if !width.is_empty() && width != "100" {
      } else if *auto {
        want.push("fit-content".into());
      } else {
        want.push("stretch".into());
      }
      if !v[4].is_empty() {
        want.push(v[4].into());
      }
      let stripes = pick(2, "", "even");
      if !stripes.is_empty() {
        want.push(format!("stripes-{stripes}"));
      }
      want.sort();
      let style: Vec<String> = if !width.is_empty() && width != "100" { vec![format!("width: {width}%")] } else { vec![] };
      for be in BACKENDS {
        let html = Job::default().html(&look_doc(c), be);
        let ns = match crate::html::parse(&html) {
          Ok(n) => n,
          Err(e) => return Verdict::bad(e),
        };
        let t = crate::html::select(&ns, |e| e.tag == "table")[0];
        let mut got: Vec<String> = t.classes().iter().filter(|c| **c != "tableblock").map(|c| c.to_string()).collect();
        got.sort();
        let mut want = want.clone();
        let mut style = style.clone();
        if be == Be::H5 {
          want.retain(|c| c != "fit-content" && *c != v[4]);
          if !v[4].is_empty() {
            style.push(format!("float: {}", v[4]));
          }
        }
        let got_style: Vec<String> = t.attr("style").unwrap_or("").split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        if got != want || got_style != style {
          return Verdict::bad(format!("{be:?}: classes {got:?} expected {want:?}; style {got_style:?} expected {style:?}"));
        }
      }
      Verdict::ok(true, &want)
    },
  )
}
fn look_doc((auto, doc, v): &(bool, usize, Vec<&str>)) -> String {
  let mut d = String::new();
  for (i, e) in [":table-frame: sides", ":table-grid: rows", ":table-stripes: even"].iter().enumerate() {
    if doc >> i & 1 == 1 {
      d += &format!("{e}\n");
    }
  }
  let mut a: Vec<String> = ["frame", "grid", "stripes", "width", "float"].iter().zip(v).filter(|(_, v)| !v.is_empty()).map(|(k, v)| format!("{k}={v}")).collect();
  if *auto {
    a.insert(0, "%autowidth".into());
  }
  format!("{d}\n{}|===\n|a\n|===\n", if a.is_empty() { String::new() } else { format!("[{}]\n", a.join(",")) })
}

pub fn prop() -> Prop {
  Prop {
    id: "C19",
    level: "model_checking",
    rule: "every table body up to the bound; nontrivial = more than one row",
    assumptions: &[],
    spaces: |t| {
      vec![
        tokens("tokens", 1, t.pick(4, 6), &[], ""),
        tokens("tokens/cols", 1, t.pick(4, 5), &[], "2*"),
        tokens("tokens/header", 1, t.pick(3, 5), &["header"], ""),
        look(),
        grid(t.pick(4, 5)),
        columns(t.pick(2, 3)),
        specs(),
        formats(1, 2),
        formats(2, 1),
        formats(2, 2),
        formats(t.pick(1, 3), t.pick(3, 2)),
      ]
    },
  }
}
