//! Totality: parsing and converting any input terminates without a panic.
use crate::adoc::*;
use crate::engine::*;
use crate::props::c09;

pub const LINES: [&str; 94] = [
  "========= nine",
  "####### seven",
  "300. item",
  "70000. item",
  "<300> co",
  ":leveloffset: +100",
  "",
  "para",
  "= Title",
  "== Sect",
  "=== Sub",
  "====== Deep",
  "* item",
  "** nested",
  ". num",
  "- dash",
  "<1> co",
  "term:: def",
  "term2::",
  "t;; d",
  "+",
  "----",
  "====",
  "|===",
  "--",
  "____",
  "****",
  "++++",
  "....",
  "////",
  "```",
  "```rust",
  ",===",
  ":===",
  "!===",
  "| a | b",
  "a| * x",
  "[quote]",
  "[cols=\"1,2*\"]",
  "[%header,cols=2]",
  "[.role#id%opt]",
  "[horizontal]",
  "[qanda]",
  "[discrete]",
  "[[anch]]",
  "[#x]",
  ".Title",
  "// comment",
  "ifdef::a[]",
  "endif::[]",
  "include::inc.adoc[]",
  "image::x.png[]",
  "video::x[youtube]",
  "toc::[]",
  "'''",
  "<<<",
  " indented",
  ":attr: val",
  ":attr!:",
  "NOTE: hi",
  "> quoted",
  "\"quote\"",
  "-- Author",
  "[NOTE]",
  "[verse, A, B]",
  "[source,rust]",
  "[stem]",
  "[abstract]",
  "[partintro]",
  "[appendix]",
  "[glossary]",
  "[bibliography]",
  "code <1>",
  "* [[[ref]]] x",
  "* [x] done",
  "<<anch>>",
  "((idx))",
  "(((a,b)))",
  "footnote:[x]",
  "{attr}",
  "{counter:n}",
  "[subs=\"+quotes,-x\"]",
  "[start=5]",
  "[%reversed]",
  "[cols=\"2*<.>a,m\"]",
  "2.3+^.>s|x",
  "3*|y",
  "audio::x.mp3[]",
  "menu:File[a > b]",
  "<2> two",
  "[%collapsible]",
  "[[[x]]]",
  "[listing]",
  "[pass]",
];

pub const INLINES: [&str; 66] = [
  "a", " ", "*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "+", "++", "+++", "\"`", "`\"", "'`", "`'", "\\", "[",
  "]", "[x]", "[.r]", "<<", ">>", "<", ">", "(", "((", "))", "(((", ")))", "{x}", "{attr}", "pass:[", "stem:[",
  "kbd:[", "btn:[", "menu:a[", "link:u[", "image:i[", "footnote:[", "footnote:f[", "xref:a[", "icon:i[", "http://x.y",
  "a@b.co", "mailto:a@b.co[", "...", "--", "(C)", "->", "'", "&", "|", ":", ";", ",", "=", "$$", "anchor:q[", "[[b]]",
  "\u{e9}", "+\n", "\n",
];

/// macros, escapes and references in less usual shapes
pub const INLINES2: [&str; 70] = [
  "a", " ", "\n", "*", "`", "#", "]", "[", ">", "<", ",", "\\", "<https://", "https://", "http://a[", "<http://a.b", "<b@c.de", "b@c.de", "&#65;", "&lt;", "&x", "pass:q[",
  "latexmath:[", "stem:c[", "xref:a#b[", "xref:#b[", "<<a#,", "<<#a,", "<<a,b", ">>", "[[a,b]]", "[#i.r%o]", "[.r.s]", "{counter:c}", "{counter2:c:5}", "{set:q:r}", "{nbsp}",
  "\\{x}", "{x", "mailto:q[", "link:++a b++[", "link:a,b[", "image:a b[", "image:http://a.b[", "footnote:[", "footnote:q[]", "footnoteref:[q,", "^]", "\"", "\\\"", "'s", "=>", "<-", "(R)", "(TM)",
  " +\n", "irc://a", "ftp://q", "?", "!", "...", "--", "\u{a0}", "\t", "((a,b))", "(((a,b,c)))", "indexterm:[a,b]", "indexterm2:[", "kbd:[a+b]", "menu:a[b > c]",
];

pub const CHARS: [&str; 40] = [
  "a", "\n", " ", "[", "]", "=", ":", "*", ".", "-", "|", "#", "`", "_", "+", "<", ">", "{", "}", "\"", "'", "/", ",",
  "!", "\\", "~", "^", ";", "(", ")", "1", "\t", "\r\n", "&", "%", "$", "@", "?", "\u{e9}", "\u{1F600}",
];

pub const BLOCKS: [&str; 20] = [
  "|===\n|a|b\n|===", ",===\na,b\n,===", "----\ncode <1>\n----\n<1> co", "....\nlit\n....", "____\nq\n____", "====\nex\n====", "--\nopen\n--",
  "****\nside\n****", "++++\npass\n++++", "* item", ". item", "t:: d", "image::a.png[]", "video::v.mp4[]", "audio::a.mp3[]", "== Sect", "para",
  "toc::[]", "\"q\"\n-- me, b", "```rb\ncode\n```",
];
pub const BLOCKATTR: [&str; 58] = [
  "width=300", "width=50%", "width=x", "height=300", "start=300", "start=70000", "start=-5", "start=x", "cols=300*", "cols=0", "cols=1;2", "cols=~,30%",
  "indent=300", "indent=x", "opts=header", "%header", "%footer", "%autowidth", "%step", "%reversed", "%interactive", "%linenums", "start=5", "subs=none",
  "subs=+quotes", "subs=-all", "subs=x", "role=r", "id=x", "#y", ".z", "quote", "verse,a,b", "source,rust", "stem", "latexmath", "format=csv",
  "format=x", "separator=;", "separator=::", "separator=", "stripes=even", "frame=ends", "grid=cols", "align=center", "float=left", "link=u", "alt=x", "poster=p",
  "target=t", "horizontal", "qanda", "loweralpha", "lowerroman", "abstract", "caption=", "reftext=[x]", "discrete",
];

pub const ATTRTOK: [&str; 28] = [
  "300", "70000",
  "a", ",", "=", "\"", "'", "#", ".", "%", " ", "[", "]", "{x}", "\\", "cols", "1", "*", "source", "subs", "role=", "-",
  "+", "\u{e9}", "<", "options=", "quote", "^",
];

pub const TABTOK: [&str; 31] = [
  "300",
  "|", "a", "\n", " ", "2+", ".2+", "3*", "a|", "m|", "\\", ",", "\"", ":", "!", "<", "^", ">", ".", "|===\n", "h|", "1",
  "0+", "\n\n", "l|", "e|", "* x\n", "2.2+", "\u{e9}", "0*", "//c\n",
];

pub const HEADER: [&str; 35] = [
  ":leveloffset: -100",
  "= Title", "= Main: Sub", "Author Name <a@b.co>", "A B; C D", "v1.0, 2020-01-01: remark", "v1", ":toc:", ":toc: preamble",
  ":doctype: book", ":doctype: manpage", ":doctype: inline", ":sectnums:", ":partnums:", ":author: X", ":leveloffset: +1",
  ":idprefix:", ":idseparator: \u{e9}", ":attr: {b} \\", ":attribute-missing: drop-line", ":experimental:", "// c",
  "////", "", "== S", "= P", "para", ":title-separator: x", ":showtitle!:", ":notitle:", ":compat-mode:",
  ":table-caption!:", ":toclevels: 0", ":sectnumlevels: 9", ":outfilesuffix: .x",
];

fn run_one(job: &Job, doc: &str, both: bool) -> Result<u64, String> {
  let mut h = 0u64;
  let bes: &[Be] = if both { &BACKENDS } else { &[Be::Dr] };
  for be in bes {
    let o = job.render(doc, *be);
    h = hash(&(h, o.html.as_deref(), o.diags.len()));
  }
  Ok(h)
}

fn check_doc(doc: &str) -> Verdict {
  // a repetition count asks for that much output: only moderate ones
  if doc.as_bytes().split(|b| !b.is_ascii_digit()).any(|d| d.len() > 5) {
    return Verdict::Skip;
  }
  let job = Job::default().attr("max-include-depth", "8", false).attr("experimental", true, false).with_files(&[
    ("/base/open.adoc", "* opened\n\n====\nnot closed\n"),
    ("/base/inc.adoc", "included\n\n* li\n"),
  ]);
  match run_one(&job, doc, true) {
    Ok(h) => {
      let strict = Job { strict: true, ..job.clone() };
      run_one(&strict, doc, false).unwrap();
      Verdict::ok(true, &h)
    }
    Err(m) => Verdict::bad(m),
  }
}

fn seqs(
  name: &str,
  toks: &'static [&'static str],
  lo: usize,
  hi: usize,
  wrap: impl Fn(&[&str]) -> String + Clone + 'static,
) -> Space {
  seqs_with(name, toks, lo, hi, wrap, |d| check_doc(d))
}

/// every sequence of tokens, as a document
pub fn seqs_with(
  name: &str,
  toks: &'static [&'static str],
  lo: usize,
  hi: usize,
  wrap: impl Fn(&[&str]) -> String + Clone + 'static,
  check: impl Fn(&str) -> Verdict + 'static,
) -> Space {
  let n = toks.len();
  let w = wrap.clone();
  let dec = move |i: u64| -> String {
    let s: Vec<&str> = seq_decode(i, n, lo, hi).into_iter().map(|k| toks[k]).collect();
    w(&s)
  };
  Space::new(name, seq_count(n, lo, hi), dec, |d| d.clone(), move |d| check(d))
}

/// a sequence of included files, conditionals and text for the shared spaces
pub const DIRECTIVES: [&str; 22] = [
  "text", "", "include::inc.adoc[]", "include::none.adoc[]", "include::bad.adoc[]", "include::inc.adoc[tag=x]", "ifdef::a[]", "ifndef::a[]", "endif::[]", "endif::b[]", "ifdef::a[x <<y>>]",
  "ifeval::[1 < 2]", "ifeval::[x]", "----", "====", "|===", "|a|b", "<<nope>>", "* item", "=== deep", "[bad", "{missing}",
];

/// the shared spaces of properties that relate whole executions
/// further lines, for pairs of them
pub const LINES2: [&str; 112] = [
  "=====", "======", "_____", "-----", "*****", "+++++", ".....", "/////", "````", "|====", "[listing]", "[literal]", "[example]", "[sidebar]", "[open]", "[WARNING]", "[CAUTION%open]",
  "[cols=\"2*a\"]", "[format=csv]", "[format=dsv,separator=;]", "\"a,b\",c", "\"a", "a:b", "- [ ] todo", "---", "***", "* * *", "a;; b", "a::: b", "a:::: b", "a::: ", "1. one", "3. three",
  "a. alpha", "A. alpha", "i) roman", "IX) roman", ".. deep", "... deeper", "*** deep", "-- dash", "[lowerroman,start=4]", "[%reversed]", "[start=0]", "[%collapsible]", "[%breakable]", "[%unbreakable]",
  "audio::x[]", "video::x[opts=autoplay]", "image::x.svg[opts=inline]", "image::{attr}[]", "## two", "# one", "footnote:[x]", "footnote:a[]", "((t)) (((a,b)))", "<<x>> <<x,y>> xref:x[z]",
  "\\ifdef::a[]", "\\include::a[]", "endif::a[]", "ifdef::a[x]", "ifndef::a[x <<y>>]", "ifeval::[\"a\" == \"a\"]", "ifndef::a[]", "include::none.adoc[opts=optional]", "include::none.adoc[]",
  "include::bad.adoc[]", "include::open.adoc[]", "include::http://x.y/z[]", ":a: b \\", ":a: b + \\", ":!x:", ":a: {attr}", ":sectnums:", ":toc:", ":doctype: book", ":sectids!:", ":idprefix: é",
  ":table-caption!:", ":leveloffset: -1", "text +", "text \\", "é ünï — “q”", "\tindented", "a\tb", "  * indented", "  a:: b", "`m` *b* _e_ #h#", "link:x[y] http://a.b[c]", "{attr}", "{none}", "{set:a:b}",
  "{counter:c}", "menu:a[b > c]", "kbd:[a,b]", "term:: +", "|a |b 2+|c", "2+|x", ".2+^.>s|y", "a|", "3*|z", "h|x", "l|x", "a|[bad", "a|* x\n+\ny", "!===\n!a", "[[a]]b", "[subs=none]", "[subs=+quotes]", "[%linenums]", "toc::[levels=1]", "{empty}",
];

pub fn wide() -> &'static [&'static str] {
  static W: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
  W.get_or_init(|| LINES.iter().chain(&LINES2).copied().collect())
}

/// few lines, for longer documents
pub const STRUCTURE: [&str; 15] = [
  "", "text <<nope>>", "* a", "** b", "a::", "+", "--", "====", "----", "[bad", "=== T", ":w: x \\", "|===", "a|b", "// c",
];

pub fn corpus<F: Fn(&str) -> Verdict + Clone + 'static>(t: Tier, f: F) -> Vec<Space> {
  let more = t == Tier::Thorough;
  let s3 = if more { 3 } else { 2 };
  vec![
    seqs_with("lines", &LINES, 1, 2, |s| s.join("\n") + "\n", f.clone()),
    seqs_with("lines without final newline", &LINES, 1, 2, |s| s.join("\n"), f.clone()),
    seqs_with("blocks", &LINES, 2, s3, |s| s.join("\n\n") + "\n", f.clone()),
    seqs_with("wide", wide(), 1, 2, |s| s.join("\n") + "\n", f.clone()),
    seqs_with("enclosed", wide(), 2, 2, |s| format!("{}\n{}\n{}\n\n{}\n", s[0], s[1], s[0], s[1]), f.clone()),
    seqs_with("directives", &DIRECTIVES, 1, if more { 4 } else { 3 }, |s| s.join("\n") + "\n", f.clone()),
    seqs_with("structure", &STRUCTURE, 3, if more { 5 } else { 4 }, |s| s.join("\n") + "\n", f.clone()),
    seqs_with("inlines", &INLINES, 1, s3, |s| format!("{}\n", s.concat()), f.clone()),
    seqs_with("more inlines", &INLINES2, 1, s3, |s| format!("z {}z\n", s.concat()), f.clone()),
    seqs_with("chars", &CHARS, 0, 3, |s| s.concat(), f.clone()),
    seqs_with("attr list", &ATTRTOK, 0, 3, |s| format!("[{}]\nfoo\n", s.concat()), f.clone()),
    seqs_with("attributes of blocks", &BLOCKATTR, 0, 1, |s| BLOCKS.iter().map(|b| format!("[{}]\n{b}\n\n", s.join(","))).collect(), f.clone()),
    seqs_with("macro attr list", &ATTRTOK, 0, s3, |s| format!("x image:f[{}] y link:q[{}]\n", s.concat(), s.concat()), f.clone()),
    seqs_with("psv table", &TABTOK, 1, 3, |s| format!("|===\n{}\n|===\n", s.concat()), f.clone()),
    seqs_with("psv table cols", &TABTOK, 1, s3, |s| format!("[%header%footer,cols=\"1a,2\"]\n|===\n{}\n|===\n", s.concat()), f.clone()),
    seqs_with("csv table", &TABTOK, 1, s3, |s| format!(",===\n{}\n,===\n", s.concat()), f.clone()),
    seqs_with("dsv table", &TABTOK, 1, s3, |s| format!(":===\n{}\n:===\n", s.concat()), f.clone()),
    seqs_with("header", &HEADER, 1, s3, |s| format!("{}\n\nbody {{attr}}\n", s.join("\n")), f.clone()),
  ]
}

/// settings and files of the shared spaces
pub fn corpus_job() -> Job {
  Job::default().attr("max-include-depth", "8", false).attr("experimental", true, false).with_files(&[
    ("/base/open.adoc", "* opened\n\n====\nnot closed\n"),
    ("/base/inc.adoc", "included\n\n* li <<nope>>\n"),
    ("/base/bad.adoc", "good\n\n[bad\n\nendif::[]\ninclude::none.adoc[]\n|===\n"),
  ])
}

pub fn moderate(doc: &str) -> bool {
  !doc.as_bytes().split(|b| !b.is_ascii_digit()).any(|d| d.len() > 4)
}

pub fn prop() -> Prop {
  Prop {
    id: "C02",
    level: "exploration",
    rule: "every sequence of lines / tokens / characters up to the bound, parsed strict and non-strict and converted by \
           both backends; every case is nontrivial; distinct = distinct (output of both backends, number of diagnostics)",
    assumptions: &[
      "a case that needs more than 10 s CPU or 1 GB is counted as not terminating",
      "arithmetic overflow and failed debug assertions count as panics (the checker is built with both enabled)",
    ],
    spaces: |t| {
      vec![
        seqs("lines", &LINES, 1, t.pick(2, 3), |s| s.join("\n") + "\n"),
        seqs("lines without final newline", &LINES, 1, 2, |s| s.join("\n")),
        seqs("wide", wide(), 1, 2, |s| s.join("\n") + "\n"),
        seqs("enclosed", wide(), 2, 2, |s| format!("{}\n{}\n{}\n\n{}\n", s[0], s[1], s[0], s[1])),
        seqs("blocks", &LINES, 2, t.pick(2, 3), |s| s.join("\n\n") + "\n"),
        seqs("inlines", &INLINES, 1, 3, |s| format!("{}\n", s.concat())),
        seqs("more inlines", &INLINES2, 1, t.pick(2, 3), |s| format!("z {}z\n", s.concat())),
        c09::docattr_space(0, 1, c09::RICH.len(), check_doc),
        c09::macro_space(t.pick(1, 2), check_doc),
        c09::spot_space("special characters", &c09::SPOTS, 2, false, check_doc),
        c09::spot_space("special characters in named attributes", &c09::NAMED, 2, false, check_doc),
        seqs("deep inlines", &INLINES[..40], 4, t.pick(3, 4), |s| format!("{}\n", s.concat())),
        seqs("inlines after text", &INLINES, 1, t.pick(2, 3), |s| format!("z{}z\n", s.concat())),
        seqs("chars", &CHARS, 0, t.pick(3, 4), |s| s.concat()),
        seqs("attr list", &ATTRTOK, 0, t.pick(3, 4), |s| format!("[{}]\nfoo\n", s.concat())),
        seqs("attr list table", &ATTRTOK, 0, t.pick(3, 4), |s| format!("[cols=\"{}\"]\n|===\n|a|b\n|===\n", s.concat())),
        seqs("attributes of blocks", &BLOCKATTR, 0, t.pick(2, 3), |s| {
          let l = format!("[{}]", s.join(","));
          BLOCKS.iter().map(|b| format!("{l}\n{b}\n\n")).collect()
        }),
        seqs("formatted text attributes", &ATTRTOK, 0, 3, |s| format!("[{}]#x# y\n", s.concat())),
        seqs("macro attr list", &ATTRTOK, 0, t.pick(3, 4), |s| format!("x image:f[{}] y link:q[{}]\n", s.concat(), s.concat())),
        seqs("psv table", &TABTOK, 1, t.pick(3, 4), |s| format!("|===\n{}\n|===\n", s.concat())),
        seqs("psv table cols", &TABTOK, 1, t.pick(3, 4), |s| format!("[%header%footer,cols=\"1a,2\"]\n|===\n{}\n|===\n", s.concat())),
        seqs("csv table", &TABTOK, 1, t.pick(3, 4), |s| format!(",===\n{}\n,===\n", s.concat())),
        seqs("dsv table", &TABTOK, 1, t.pick(3, 4), |s| format!(":===\n{}\n:===\n", s.concat())),
        seqs("header", &HEADER, 1, t.pick(3, 4), |s| format!("{}\n\nbody {{attr}}\n", s.join("\n"))),
      ]
    },
  }
}
