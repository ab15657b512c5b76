//! Conditional preprocessor directives against a stack-machine reference model.
use super::words;
use crate::adoc::*;
use crate::engine::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
  Text,
  IfdefSet,
  IfdefUnset,
  IfndefSet,
  IfndefUnset,
  Endif,
  EndifTarget,
  InlineUnset,
  InlineSet,
  EvalTrue,
  EvalFalse,
  DefineZ,
  UndefA,
  EndifBogus,
  MidLine,
}
use Op::*;

const OPS: [Op; 15] = [
  Text, IfdefSet, Endif, IfdefUnset, EvalFalse, InlineUnset, EvalTrue, InlineSet, EndifTarget, IfndefSet, IfndefUnset,
  EndifBogus, MidLine, DefineZ, UndefA,
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ctx {
  Separate,
  Contiguous,
  Listing,
  Example,
  ListOpen,
}
const CTXS: [Ctx; 5] = [Ctx::Separate, Ctx::Contiguous, Ctx::Listing, Ctx::Example, Ctx::ListOpen];

#[derive(Clone, Copy, PartialEq, Hash, Debug)]
enum Fr {
  A,
  Z,
  Eval,
}

/// state of the reference model: attribute values, the stack of active
/// conditionals, and the stack of conditionals opened inside a skipped region
#[derive(Clone, PartialEq, Hash, Debug)]
struct M {
  a: bool,
  z: bool,
  active: Vec<Fr>,
  skip: Vec<Fr>,
}

enum End {
  Fine,
  /// rejected: line index, fragment of the message
  Reject(usize, &'static str),
}

struct Run {
  lines: Vec<String>,
  expect: Vec<String>,
  end: End,
  skips: usize,
}

/// None: this sequence is not generated (directive spelled relative to the
/// stack has no meaning here)
fn predict(ops: &[Op], ctx: Ctx) -> Option<Run> {
  let mut m = M { a: true, z: false, active: vec![], skip: vec![] };
  let mut lines = vec![];
  let mut expect = vec![];
  let mut skips = 0;
  let mut skip_start = 0;
  note_state(&m);
  for (i, op) in ops.iter().enumerate() {
    let before = m.clone();
    let skipping = !m.skip.is_empty();
    let (line, open): (String, Option<(Fr, bool)>) = match op {
      Text => (format!("t{i}"), None),
      MidLine => (format!("t{i} see endif::[]"), None),
      IfdefSet => ("ifdef::aa[]".into(), Some((Fr::A, m.a))),
      IfdefUnset => ("ifdef::zz[]".into(), Some((Fr::Z, m.z))),
      IfndefSet => ("ifndef::aa[]".into(), Some((Fr::A, !m.a))),
      IfndefUnset => ("ifndef::zz[]".into(), Some((Fr::Z, !m.z))),
      EvalTrue => ("ifeval::[{nn} == 1]".into(), Some((Fr::Eval, true))),
      EvalFalse => ("ifeval::[{nn} > 1]".into(), Some((Fr::Eval, false))),
      InlineUnset => (format!("ifdef::zz[s{i}]"), None),
      InlineSet => (format!("ifdef::aa[s{i}]"), None),
      Endif => ("endif::[]".into(), None),
      EndifTarget => {
        let top = m.skip.last().or(m.active.last())?;
        match top {
          Fr::A => ("endif::aa[]".into(), None),
          Fr::Z => ("endif::zz[]".into(), None),
          Fr::Eval => return None,
        }
      }
      EndifBogus => {
        if skipping {
          return None;
        }
        ("endif::bogus[]".into(), None)
      }
      DefineZ | UndefA => {
        if ctx != Ctx::Separate && ctx != Ctx::Example {
          return None;
        }
        if *op == DefineZ { (":zz:".into(), None) } else { (":aa!:".into(), None) }
      }
    };
    lines.push(line);
    if let Some((fr, cond)) = open {
      if skipping {
        m.skip.push(fr);
      } else if cond {
        m.active.push(fr);
      } else {
        m.skip.push(fr);
        skip_start = i;
      }
    } else {
      match op {
        Endif | EndifTarget => {
          if skipping {
            m.skip.pop();
            skips += 1;
          } else if m.active.pop().is_none() {
            return Some(Run { lines: all_lines(lines, ops, i)?, expect, end: End::Reject(i, "no previous"), skips });
          }
        }
        EndifBogus => {
          let what = if m.active.is_empty() { "no previous" } else { "Mismatched" };
          return Some(Run { lines: all_lines(lines, ops, i)?, expect, end: End::Reject(i, what), skips });
        }
        _ if skipping => {}
        Text => expect.push(format!("t{i}")),
        MidLine => expect.extend([format!("t{i}"), "see".into(), "endif::[]".into()]),
        InlineUnset if m.z => expect.push(format!("s{i}")),
        InlineSet if m.a => expect.push(format!("s{i}")),
        DefineZ => m.z = true,
        UndefA => m.a = false,
        _ => {}
      }
    }
    note_state(&m);
    note_transition(&(&before, *op as u8, &m));
  }
  let end = if m.skip.is_empty() { End::Fine } else { End::Reject(skip_start, "never closed") };
  Some(Run { lines, expect, end, skips })
}

/// a sequence is rejected at op i: only generated when i is the last op, all
/// longer sequences with this prefix are the same case
fn all_lines(lines: Vec<String>, ops: &[Op], i: usize) -> Option<Vec<String>> {
  (i + 1 == ops.len()).then_some(lines)
}

fn document(lines: &[String], ctx: Ctx) -> (String, Vec<u32>) {
  let mut doc = String::from("= Doc\n:aa:\n:nn: 1\n\n");
  let mut n = 4;
  let mut at = vec![];
  let pre = match ctx {
    Ctx::Separate | Ctx::Contiguous => "start\n\n",
    Ctx::Listing => "----\n",
    Ctx::Example => "====\n",
    Ctx::ListOpen => "* item\n+\n--\n",
  };
  doc.push_str(pre);
  n += pre.matches('\n').count() as u32;
  for l in lines {
    n += 1;
    at.push(n);
    doc.push_str(l);
    doc.push('\n');
    if matches!(ctx, Ctx::Separate | Ctx::Example) {
      doc.push('\n');
      n += 1;
    }
  }
  doc.push_str(match ctx {
    Ctx::Separate => "finish\n",
    Ctx::Contiguous => "\nfinish\n",
    Ctx::Listing => "----\n\nfinish\n",
    Ctx::Example => "====\n\nfinish\n",
    Ctx::ListOpen => "--\n\nfinish\n",
  });
  (doc, at)
}

fn case(ops: &[Op], ctx: Ctx, eof: bool) -> Option<(Run, String, Vec<u32>)> {
  let run = predict(ops, ctx)?;
  let (mut doc, at) = document(&run.lines, ctx);
  if eof {
    // the last directive ends the input, without a newline
    doc.truncate(doc.len() - "finish\n".len());
    doc = doc.trim_end().to_string();
  }
  Some((run, doc, at))
}

fn check_case(ops: &[Op], ctx: Ctx, eof: bool) -> Verdict {
  let Some((run, doc, at)) = case(ops, ctx, eof) else { return Verdict::Skip };
  let out = Job::strict().render(&doc, Be::Dr);
  match run.end {
    End::Reject(i, frag) => {
      if out.html.is_some() {
        return Verdict::bad(format!("accepted, expected rejection at line {} ({frag})", at[i]));
      }
      let d = &out.diags[0];
      if d.line_num != at[i] || !d.message.contains(frag) {
        return Verdict::bad(format!("expected `{frag}` at line {}, got {:?}", at[i], out.diags));
      }
      Verdict::ok(true, &(frag, &run.expect))
    }
    End::Fine => {
      let Some(html) = out.html else {
        return Verdict::bad(format!("rejected: {:?}", out.diags));
      };
      let got: Vec<String> =
        words(&html).into_iter().filter(|w| !["start", "item", "finish"].contains(&w.as_str())).collect();
      if got != run.expect {
        return Verdict::bad(format!("content lines {got:?}, model says {:?}", run.expect));
      }
      if !eof && !words(&html).iter().any(|w| w == "finish") {
        return Verdict::bad("content after the conditionals was lost");
      }
      Verdict::ok(ops.len() > 1, &(ctx as u8, &run.expect, run.skips))
    }
  }
}

fn seq_space(name: &str, ops: &'static [Op], lo: usize, hi: usize, ctxs: &'static [Ctx], eof: bool) -> Space {
  let n = seq_count(ops.len(), lo, hi);
  let decode = move |i: u64| {
    let mut r = Radix::new(i);
    let ctx = *r.pick(ctxs);
    let s = seq_decode(i / ctxs.len() as u64, ops.len(), lo, hi);
    (s.into_iter().map(|k| ops[k]).collect::<Vec<_>>(), ctx)
  };
  Space::new(
    name,
    n * ctxs.len() as u64,
    decode,
    move |(o, c)| match case(o, *c, eof) {
      Some((_, doc, _)) => doc,
      None => format!("{o:?} {c:?}"),
    },
    move |(o, c)| check_case(o, *c, eof),
  )
}

// ---- header ------------------------------------------------------------------

const HOPS: [&str; 9] =
  ["def", "ifdef::aa[]", "endif::[]", "ifdef::zz[]", "ifndef::zz[]", "ifndef::aa[]", ":zz: 1", ":aa!:", "inline"];

fn header_case(ops: &[usize]) -> Option<(String, Vec<String>)> {
  let (mut a, mut z) = (true, false);
  let (mut active, mut skip) = (0, 0);
  let mut doc = String::from("= Doc\n:aa: 1\n");
  let mut defs = vec![];
  for (i, &o) in ops.iter().enumerate() {
    let op = HOPS[o];
    let on = skip == 0;
    match op {
      "def" => {
        doc.push_str(&format!(":d{i}: v{i}\n"));
        defs.push((i, on));
        continue;
      }
      "inline" => {
        doc.push_str(&format!("ifdef::zz[:d{i}: v{i}]\n"));
        defs.push((i, on && z));
        continue;
      }
      "endif::[]" => {
        if !on {
          skip -= 1
        } else if active > 0 {
          active -= 1
        } else {
          return None;
        }
      }
      ":zz: 1" => z |= on,
      ":aa!:" => a &= !on,
      _ => {
        let cond = match op {
          "ifdef::aa[]" => a,
          "ifdef::zz[]" => z,
          "ifndef::zz[]" => !z,
          _ => !a,
        };
        if !on || !cond {
          skip += 1
        } else {
          active += 1
        }
      }
    }
    doc.push_str(op);
    doc.push('\n');
    note_state(&("h", a, z, active, skip));
  }
  if active + skip > 0 || defs.is_empty() {
    return None;
  }
  doc.push('\n');
  let mut expect = vec![];
  for (i, on) in &defs {
    doc.push_str(&format!("{{d{i}}}\n"));
    expect.push(if *on { format!("v{i}") } else { format!("{{d{i}}}") });
  }
  Some((doc, expect))
}

fn header_space(hi: usize) -> Space {
  let n = HOPS.len();
  Space::new(
    "header conditionals",
    seq_count(n, 1, hi),
    move |i| seq_decode(i, n, 1, hi),
    |o: &Vec<usize>| header_case(o).map(|c| c.0).unwrap_or_else(|| format!("{o:?}")),
    |o| {
      let Some((doc, expect)) = header_case(o) else { return Verdict::Skip };
      let out = Job::strict().render(&doc, Be::Dr);
      let Some(html) = out.html else { return Verdict::bad(format!("rejected: {:?}", out.diags)) };
      let got = words(&html);
      if got != expect {
        return Verdict::bad(format!("got {got:?}, model says {expect:?}"));
      }
      Verdict::ok(true, &expect)
    },
  )
}

// ---- condition expressions -----------------------------------------------------

const NAMES: [(&str, bool); 5] = [("t", true), ("str", true), ("zz", false), ("off", false), ("e-1", true)];

fn expr_space(hi: usize) -> Space {
  let per = seq_count(NAMES.len(), 1, hi);
  Space::new(
    "condition expressions",
    per * 2 * 2 * 3,
    move |i| {
      let mut r = Radix::new(i);
      let neg = r.take(2) == 1;
      let plus = r.take(2) == 1;
      let form = r.take(3);
      (neg, plus, form, seq_decode(i / 12, NAMES.len(), 1, hi))
    },
    |(neg, plus, form, s)| expr_doc(*neg, *plus, *form, s),
    |(neg, plus, form, s)| {
      let vals: Vec<bool> = s.iter().map(|k| NAMES[*k].1).collect();
      if s.len() == 1 && *plus {
        return Verdict::Skip;
      }
      let mixed = vals.iter().any(|b| *b) && vals.iter().any(|b| !*b);
      if *neg && *plus && mixed {
        return Verdict::Skip; // own space below
      }
      let defined = if *plus { vals.iter().all(|b| *b) } else { vals.iter().any(|b| *b) };
      let cond = defined != *neg;
      let doc = expr_doc(*neg, *plus, *form, s);
      let got = words(&Job::strict().html(&doc, Be::Dr));
      let want: Vec<&str> = if cond { vec!["before", "inside", "after"] } else { vec!["before", "after"] };
      if got != want {
        return Verdict::bad(format!("got {got:?}, model says {want:?}"));
      }
      Verdict::ok(true, &(neg, plus, vals))
    },
  )
}

/// `ifndef::a+b[]` with one of the two defined
fn ifndef_all_space() -> Space {
  let doc = |c: &(usize, usize)| expr_doc(true, true, c.0, if c.1 == 0 { &[0, 2] } else { &[2, 0] });
  Space::new(
    "ifndef with a + list, one attribute defined",
    6,
    |i| {
      let mut r = Radix::new(i);
      (r.take(3), r.take(2))
    },
    move |c| doc(c),
    move |c| {
      let got = words(&Job::strict().html(&doc(c), Be::Dr));
      if got != ["before", "inside", "after"] {
        return Verdict::bad(format!("got {got:?}: not all attributes are defined, content must be kept"));
      }
      Verdict::ok(true, &c)
    },
  )
}

fn expr_doc(neg: bool, plus: bool, form: usize, s: &[usize]) -> String {
  let names: Vec<&str> = s.iter().map(|k| NAMES[*k].0).collect();
  let target = names.join(if plus { "+" } else { "," });
  let d = if neg { "ifndef" } else { "ifdef" };
  let head = ":t:\n:str: foo\n:off!:\n:e-1: 0\n\nbefore\n";
  match form {
    0 => format!("{head}{d}::{target}[]\ninside\nendif::[]\nafter\n"),
    1 => format!("{head}{d}::{target}[]\ninside\nendif::{target}[]\nafter\n"),
    _ => format!("{head}{d}::{target}[inside]\nafter\n"),
  }
}

// ---- ifeval ----------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum V {
  I(i64),
  F(f64),
  S(&'static str),
  B(bool),
}
const VALS: [(&str, V); 26] = [
  ("1.0", V::F(1.0)),
  ("-0.5", V::F(-0.5)),
  ("0", V::I(0)),
  ("1", V::I(1)),
  ("2", V::I(2)),
  ("10", V::I(10)),
  ("-1", V::I(-1)),
  ("{one}", V::I(1)),
  ("{ten}", V::I(10)),
  ("0.5", V::F(0.5)),
  ("1.5", V::F(1.5)),
  ("{half}", V::F(0.5)),
  ("\"\"", V::S("")),
  ("\"a\"", V::S("a")),
  ("'a'", V::S("a")),
  ("\"b\"", V::S("b")),
  ("\"ab\"", V::S("ab")),
  ("\"10\"", V::S("10")),
  ("\"9\"", V::S("9")),
  ("\"{word}\"", V::S("word")),
  ("'word'", V::S("word")),
  ("\"{one}\"", V::S("1")),
  ("\"a b\"", V::S("a b")),
  ("true", V::B(true)),
  ("false", V::B(false)),
  ("\"{word}-{one}\"", V::S("word-1")),
];
const CMP: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];

fn cmp(a: V, op: usize, b: V) -> Option<bool> {
  use std::cmp::Ordering::*;
  let o = match (a, b) {
    (V::I(a), V::I(b)) => a.cmp(&b),
    (V::F(a), V::F(b)) => a.partial_cmp(&b).unwrap(),
    (V::I(a), V::F(b)) => (a as f64).partial_cmp(&b).unwrap(),
    (V::F(a), V::I(b)) => a.partial_cmp(&(b as f64)).unwrap(),
    (V::S(a), V::S(b)) => a.cmp(b),
    (V::B(a), V::B(b)) if op < 2 => a.cmp(&b),
    _ => return None,
  };
  Some(match op {
    0 => o == Equal,
    1 => o != Equal,
    2 => o == Less,
    3 => o != Greater,
    4 => o == Greater,
    _ => o != Less,
  })
}

fn eval_space() -> Space {
  let n = VALS.len();
  let doc = |l: usize, op: usize, r: usize, tight: bool| {
    let s = if tight { "" } else { " " };
    format!(
      ":one: 1\n:ten: 10\n:half: 0.5\n:word: word\n\nbefore\nifeval::[{}{s}{}{s}{}]\ninside\nendif::[]\nafter\n",
      VALS[l].0, CMP[op], VALS[r].0
    )
  };
  Space::new(
    "ifeval comparisons",
    (n * n * 6 * 2) as u64,
    move |i| {
      let mut r = Radix::new(i);
      (r.take(n), r.take(6), r.take(n), r.take(2) == 1)
    },
    move |(l, op, r, t)| doc(*l, *op, *r, *t),
    move |(l, op, r, t)| {
      let Some(cond) = cmp(VALS[*l].1, *op, VALS[*r].1) else { return Verdict::Skip };
      let got = words(&Job::strict().html(&doc(*l, *op, *r, *t), Be::Dr));
      let want: Vec<&str> = if cond { vec!["before", "inside", "after"] } else { vec!["before", "after"] };
      if got != want {
        return Verdict::bad(format!("got {got:?}, model says {want:?}"));
      }
      Verdict::ok(true, &(l, op, r))
    },
  )
}

pub fn prop() -> Prop {
  Prop {
    id: "C01",
    level: "model_checking",
    rule: "every sequence of preprocessor lines over the alphabet up to the bound, in every enclosing context; \
           nontrivial = at least two lines; distinct = distinct (context, predicted output, number of closed skips)",
    assumptions: &[
      "conditions are evaluated against attributes aa/zz, toggled by body attribute entries where those are legal",
      "endif targets inside a skipped region always match (mismatches there are unspecified)",
    ],
    spaces: |tier| {
      vec![
        expr_space(tier.pick(4, 5)),
        ifndef_all_space(),
        eval_space(),
        seq_space("directive sequences", &OPS, 1, tier.pick(4, 5), &CTXS, false),
        seq_space("nesting sequences", &OPS[..8], 1, tier.pick(6, 7), &[Ctx::Separate, Ctx::Contiguous], false),
        seq_space("sequences at end of input", &OPS, 1, tier.pick(3, 4), &[Ctx::Separate, Ctx::Contiguous], true),
        header_space(tier.pick(6, 7)),
      ]
    },
  }
}
