//! Output is well-formed, and nothing but documented passthroughs turns source text into markup.
use super::c02::*;
use crate::adoc::*;
use crate::engine::*;
use crate::html;

const TAGS: &[&str] = &[
  "a", "audio", "b", "blockquote", "body", "br", "caption", "cite", "code", "col", "colgroup", "dd", "details", "div", "dl",
  "dt", "em", "figcaption", "figure", "footer", "h1", "h2", "h3", "h4", "h5", "h6", "h7", "head", "header", "hr", "html", "i",
  "iframe", "img", "input", "kbd", "li", "link", "mark", "meta", "nav", "object", "ol", "p", "pre", "q", "samp", "section", "small",
  "span", "strong", "style", "sub", "summary", "sup", "table", "tbody", "td", "tfoot", "th", "thead", "time", "title",
  "tr", "ul", "var", "video", "aside", "main", "s", "del", "script", "cite", "label",
];
const ATTRS: &[&str] = &[
  "align", "allowfullscreen", "alt", "autoplay", "charset", "checked", "class", "colspan", "content", "controls", "crossorigin", "data-lang",
  "data-item-complete", "data", "disabled", "download", "frameborder", "height", "href", "http-equiv", "id", "integrity", "lang", "loading", "loop", "muted", "name",
  "open", "poster", "preload", "rel", "reversed", "role", "rowspan", "scope", "span", "src", "start", "style", "target", "title", "type",
  "value", "width", "xml:lang", "data-value", "conum", "data-conum", "valign", "border", "datetime", "aria-label", "aria-hidden", "referrerpolicy", "hidden", "dir", "fallback", "for",
];

pub fn check_tree(ns: &[html::Node]) -> Result<(), String> {
  for e in html::els(ns) {
    if !TAGS.contains(&e.tag.as_str()) {
      return Err(format!("element <{}> made up from the source text", e.tag));
    }
    for (k, _) in &e.attrs {
      if !ATTRS.contains(&k.as_str()) {
        return Err(format!("attribute {k}= of <{}> made up from the source text", e.tag));
      }
    }
    if e.tag != "script" && e.tag != "style" {
      check_tree(&e.kids)?;
    }
  }
  Ok(())
}

/// documented ways to get at raw output
/// (and, pinned by the test escaped_char_replacements, escaped arrows)
const RAW: &[&str] = &["+++", "pass:", "++++", "[pass]", "subs=", "$$", "\\<-", "\\<="];

pub fn wf(doc: &str, job: &Job, h: &mut u64) -> Result<(), String> {
  for be in BACKENDS {
    let o = job.render(doc, be);
    let Some(out) = o.html else { continue };
    let tree = html::parse(&out).map_err(|e| format!("{be:?}: {e}\n{out}"))?;
    check_tree(&tree).map_err(|e| format!("{be:?}: {e}\n{out}"))?;
    *h = hash(&(*h, &out));
  }
  Ok(())
}

fn check(doc: &str, embedded: bool) -> Verdict {
  if RAW.iter().any(|r| doc.contains(r)) || doc.as_bytes().split(|b| !b.is_ascii_digit()).any(|d| d.len() > 4) {
    return Verdict::Skip;
  }
  let mut job = Job::default().attr("experimental", true, false).attr("icons", "font", false).with_files(&[("/base/inc.adoc", "included\n\n* li\n")]);
  job.embedded = embedded;
  let mut h = 0;
  match wf(doc, &job, &mut h) {
    Ok(()) => Verdict::ok(doc.contains(['<', '&', '"', '>', '\'']), &h),
    Err(m) => Verdict::bad(m),
  }
}

const EVIL: [&str; 16] = [
  "<zz>", "&", "\"", "'", "a", " ", "<", ">", "&amp;", "&#x41;", "*b*", "]", ",", "\u{e9}", "{lt}", "`c`",
];
/// every place of a document text can end up in
pub const SPOTS: [&str; 40] = [
  "= @\n\npara\n", "= T\n@\n", "= T\nA B <@>\n", "= T\nA B\nv1, 2020-01-01: @\n", ":description: @\n\npara\n", ":keywords: @\n\npara\n",
  ":author: @\n\npara\n", "= T\n:toc:\n\n== @\n\npara\n", "@\n", ".@\npara\n", "* @\n", ". @\n", "@:: d\n", "t:: @\n", "----\n@\n----\n",
  "....\n@\n....\n", "|===\n|@\n|===\n", "[cols=a]\n|===\n|@\n|===\n", "[cols=l]\n|===\n|@\n|===\n", ".@\n|===\n|a\n|===\n", "image::i.png[@]\n",
  ".@\nimage::i.png[]\n", "x image:i.png[@] y\n", "x link:u[@] y\n", "x http://a.b[@] y\n", "x footnote:[@] y\n", "x <<id,@>> y\n",
  "[[id,@]]\n== S\n\n<<id>>\n", "x kbd:[@] btn:[@] y\n", "x menu:a[@] y\n", "[quote, @, @]\npara\n", "\"para\"\n-- @\n", "NOTE: @\n", "video::v.mp4[@]\n",
  "[.@]#x#\n", "x [.r]#@# y\n", ":a: @\n\nx {a} y\n", "== @\n\npara\n", "term:: x ((@)) (((@))) y\n", "[source,@]\n----\nx\n----\n",
];
pub const NAMED: [&str; 12] = [
  "image::i.png[alt=@]\n", "image::i.png[title=@]\n", "image::i.png[link=@]\n", "x image:i.png[role=@,width=@] y\n", "x link:u[t,role=@,title=@] y\n",
  "x link:u[t,window=@] y\n", "[role=@]\npara\n", "[id=@]\npara\n", "video::v.mp4[poster=@]\n", "[start=@]\n. x\n", "[width=@]\n|===\n|a\n|===\n", "x xref:q[@] link:@[t] <<@>> y\n",
];

pub fn spot_space(name: &'static str, spots: &'static [&'static str], hi: usize, quoted: bool, check: impl Fn(&str) -> Verdict + 'static) -> Space {
  let n = seq_count(EVIL.len(), 1, hi);
  Space::new(
    name,
    n * spots.len() as u64,
    move |i| {
      let s: String = seq_decode(i / spots.len() as u64, EVIL.len(), 1, hi).into_iter().map(|k| EVIL[k]).collect();
      let s = if quoted { format!("\"{}\"", s.replace('"', "\\\"")) } else { s };
      spots[(i % spots.len() as u64) as usize].replace('@', &s)
    },
    |d| d.clone(),
    move |d| check(d),
  )
}

/// places whose text is rendered as it is (special characters only)
const TEXTSPOTS: [&str; 30] = [
  "= x@y\n\npara\n", "= T\nA B\nv1, 2020-01-01: x@y\n", "= T\n:toc:\n\n== x@y\n\npara\n", "x@y\n", ".x@y\npara\n", "* x@y\n", ". x@y\n",
  "x@y:: d\n", "t:: x@y\n", "----\nx@y\n----\n", "....\nx@y\n....\n", "|===\n|x@y\n|===\n", "[cols=a]\n|===\n|x@y\n|===\n",
  "[cols=l]\n|===\n|x@y\n|===\n", ".x@y\n|===\n|a\n|===\n", ".x@y\nimage::i.png[]\n", "x link:u[x@y] y\n", "x http://a.b[x@y] y\n",
  "x footnote:[x@y] y\n", "x <<id,x@y>> y\n", "x kbd:[x@y] y\n", "x btn:[x@y] y\n", "[quote]\nx@y\n", "NOTE: x@y\n", "x [.r]#x@y# y\n", "x `x@y` *x@y* _x@y_ y\n",
  ":a: x@y\n\nx {a} y\n", "[verse]\nx@y\n", "x +x@y+ `+x@y+` y\n", "  x@y\n",
];
const PLAIN: [&str; 9] = ["<zz>", "&", "\"", "a", " ", "<", ">", "\u{e9}", "&lt;"];

fn text_space(hi: usize) -> Space {
  let n = seq_count(PLAIN.len(), 1, hi);
  Space::new(
    "text survives",
    n * TEXTSPOTS.len() as u64,
    move |i| {
      let s: String = seq_decode(i / TEXTSPOTS.len() as u64, PLAIN.len(), 1, hi).into_iter().map(|k| PLAIN[k]).collect();
      (TEXTSPOTS[(i % TEXTSPOTS.len() as u64) as usize], s)
    },
    |(spot, s)| spot.replace('@', s),
    |(spot, s)| {
      // cross references, and quoted macro attributes, are syntax of their own
      if s.contains("<<") || (s.contains('"') && spot.contains('[')) || (spot.contains("<<") && s.contains(">>")) {
        return Verdict::Skip;
      }
      let doc = spot.replace('@', s);
      let job = Job { embedded: false, ..Job::default() }.attr("experimental", true, false);
      let norm = |t: &str| t.split_whitespace().collect::<Vec<_>>().join(" ");
      let want = norm(&format!("x{s}y"));
      // entities of the source are entities unless the content is verbatim
      let verbatim = ["----", "....", "cols=l", "\n  ", "  x"].iter().any(|v| spot.contains(v) || spot.starts_with(v));
      let decoded = norm(&format!("x{}y", s.replace("&lt;", "<")));
      let n = doc.matches(&format!("x{s}y")).count();
      for be in BACKENDS {
        let out = job.html(&doc, be);
        let tree = match html::parse(&out) {
          Ok(t) => t,
          Err(e) => return Verdict::bad(format!("{be:?}: {e}\n{out}")),
        };
        let text = norm(&html::visible_text(&tree));
        let found = text.matches(&want).count() + if verbatim || decoded == want { 0 } else { text.matches(&decoded).count() };
        if found < n {
          return Verdict::bad(format!("{be:?}: the text {want:?} does not appear (escaped) {n} times in\n{text}\n{out}"));
        }
      }
      Verdict::ok(true, &doc)
    },
  )
}

/// document attributes the backends look at, with values put between the header and the body
const DOCATTR: [&str; 66] = [
  "hide-uri-scheme", "icons", "icons: font", "icons: @", "icontype: @", "iconsdir: @", "imagesdir: @", "data-uri", "lang: @", "nolang", "encoding: @",
  "favicon", "favicon: @", "copyright: @", "app-name: @", "keywords: @", "description: @", "author: @", "authors: @", "email: @", "css-signature: @", "doctitle: @",
  "title: @", "noheader", "nofooter", "notitle", "showtitle", "max-width: @", "linkcss", "stylesheet: @", "stylesdir: @", "stylesheet!", "webfonts!", "webfonts: @",
  "sectanchors", "sectlinks", "sectnums", "sectnumlevels: 1", "partnums", "part-signifier: @", "chapter-signifier: @", "appendix-caption: @",
  "appendix-caption!", "version-label: @", "revnumber: @", "revdate: @", "revremark: @", "source-highlighter: @", "source-highlighter: highlight.js",
  "source-language: @", "toc", "toc: preamble", "toc: macro", "toc: left", "toc-title: @", "toc-class: @", "table-frame: @", "table-grid: @",
  "table-stripes: @", "table-caption: @", "figure-caption: @", "example-caption: @", "relfileprefix: @", "relfilesuffix: @", "outfilesuffix: @", "hardbreaks-option",
];
const DOCVAL: [&str; 4] = ["a&b", "<zz>", "a\"<zz>&amp;b'", "\" x"];
pub const RICH: [&str; 18] = [
  "see https://a.b?x&copy=<zz>[] and http://a.b/'[t] m@x.y mailto:a&b@x.y[] link:q&r[] <<q&r>> <<q.adoc#s>>", "image::i&j.png[]\n\nimage:i&j.png[] icon:heart[] icon:a&b[]",
  ".t&i\n----\na&b <zz>\n----\n\n[source]\n----\nx <1>\n----\n<1> a&b", "== a&b\n\n=== <zz>\n\ntext\n\n== `c` \"q\"", "pre\n\ntoc::[]\n\n== a&b\n\nx",
  ".a&b\n|===\n|a&b |c\n|===", ".a&b\n====\nx\n====\n\n.f&g\nimage::i.png[a&b]", "NOTE: a&b\n\n[WARNING]\n====\nx\n====", "[appendix]\n== a&b\n\nx",
  "x footnote:[a&b] y footnote:id&[a] z footnote:id&[]", "* a&b\n* [x] b\n\n. c\n\na&b:: d\n\n[qanda]\nq&:: a", "video::v&w.mp4[]\n\naudio::a&b.mp3[]\n\nvideo::id&[youtube]",
  "[glossary]\n== G\n\n[glossary]\na&b:: c", "[bibliography]\n== R\n\n* [[[a&b,c&d]]] x\n\n<<a&b>>", "line&\nline<\n\n[verse, a&b, c&d]\nv", "'''\n\n<<<\n\n[%collapsible]\n.a&b\n====\nx\n====",
  "a&b {doctitle} {author} {email} {toc-title} {imagesdir} {description}", "[[a&b]]x\n\n[#c&d.r&s]\nx [[e&f,g&h]] anchor:i&j[k&l] ((m&n)) (((o&p)))",
];
const HEADS: [&str; 5] = ["= T\n@", "= T&u <zz>\nA & B <a&b@c.d>\nv1&2, 2020 & 2021: r&s\n@", "= T\n:doctype: book\n@\n\n= P&q", "@", "= T\n:doctype: manpage\n@\n\n== NAME\n\na&b - c&d"];

const MACROS: [&str; 18] = [
  "image::i.png[@]\n", "x image:i.png[@] y\n", "image::i.svg[@]\n", "x image:i.svg[@] y\n", "x link:u[t,@] y\n", "x http://a.b[t,@] y\n", "x mailto:q[t,@] y\n", "x xref:u[t,@] y\n",
  "x icon:heart[@] y\n", "video::v.mp4[@]\n", "video::v[youtube,@]\n", "video::v/h[vimeo,@]\n", "video::v[wistia,@]\n", "audio::a.mp3[@]\n",
  "[cols=2,@]\n|===\n|a |b\n|===\n", "[source,@]\n----\nx\n----\n", "[@]\n. x\n.. y\n", "[quote,@]\n____\nx\n____\n",
];
const MATTR: [&str; 46] = [
  "width=#", "height=#", "poster=#", "playlist=#", "hash=#", "start=#", "end=#", "theme=#", "lang=#", "list=#", "preload=#", "role=#", "title=#", "align=#", "float=#",
  "link=#", "window=#", "window=_blank", "id=#", "reftext=#", "size=#", "flip=#", "rotate=#", "alt=#", "fallback=#", "caption=#", "frame=#", "grid=#", "stripes=#", "#", "",
  "opts=#", "opts=nofollow", "opts=noopener", "opts=inline", "opts=interactive", "opts=autoplay", "opts=\"loop,muted,modest,nocontrols\"", "%header", "%reversed", "%interactive", "%nofollow", ".r", "subject=#", "body=#", "xrefstyle=#",
];
const MVAL: [&str; 4] = ["1", "a&b", "<zz>", "\"a\\\"<zz>&amp;b' c\""];

pub fn docattr_space(lo: usize, hi: usize, docs: usize, check: impl Fn(&str) -> Verdict + 'static) -> Space {
  let n = seq_count(DOCATTR.len(), lo, hi);
  let docs = &RICH[..docs];
  let total = n * (docs.len() * HEADS.len() * DOCVAL.len()) as u64;
  Space::new(
    if hi == 1 { "document attribute" } else { "document attributes" },
    total,
    move |i| {
      let mut r = Radix::new(i);
      let doc = *r.pick(docs);
      let head = *r.pick(&HEADS);
      let val = *r.pick(&DOCVAL);
      let attrs: Vec<_> = seq_decode(r.take(n as usize) as u64, DOCATTR.len(), lo, hi)
        .into_iter()
        .map(|k| {
          let a = DOCATTR[k];
          if a.contains(": ") { format!(":{}", a.replace('@', val)) } else { format!(":{a}:") }
        })
        .collect();
      format!("{}\n\n{doc}\n", head.replace("@", "\u{1}").replacen("a&b\u{1}c.d", "a&b@c.d", 1).replace('\u{1}', &attrs.join("\n")).trim_end())
    },
    |d| d.clone(),
    move |d| check(d),
  )
}

pub fn macro_space(hi: usize, check: impl Fn(&str) -> Verdict + 'static) -> Space {
  let toks: Vec<String> = MATTR
    .iter()
    .flat_map(|a| if a.contains('#') { MVAL.iter().map(|v| a.replace('#', v)).collect() } else { vec![a.to_string()] })
    .collect();
  let toks: &'static [String] = Box::leak(toks.into_boxed_slice());
  let n = seq_count(toks.len(), 1, hi);
  Space::new(
    "attributes of macros",
    n * MACROS.len() as u64,
    move |i| {
      let mut r = Radix::new(i);
      let m = *r.pick(&MACROS);
      let attrs: Vec<_> = seq_decode(r.take(n as usize) as u64, toks.len(), 1, hi).into_iter().map(|k| toks[k].as_str()).collect();
      m.replace('@', &attrs.join(","))
    },
    |d| d.clone(),
    move |d| check(d),
  )
}

pub fn prop() -> Prop {
  Prop {
    id: "C09",
    level: "model_checking",
    rule: "every sequence of tokens up to the bound in every position of a document; both backends; nontrivial = the \
           document contains characters special in HTML; distinct = distinct output",
    assumptions: &["documents using passthroughs (+++, pass:, ++++, [pass], subs=) are excluded: raw output is their purpose"],
    spaces: |t| {
      vec![
        text_space(t.pick(3, 4)),
        docattr_space(0, 1, RICH.len(), |d| check(d, false)),
        docattr_space(2, 2, t.pick(2, RICH.len()), |d| check(d, false)),
        macro_space(t.pick(2, 3), |d| check(d, true)),
        spot_space("special characters", &SPOTS, t.pick(3, 4), false, |d| check(d, false)),
        spot_space("special characters in named attributes", &NAMED, t.pick(3, 4), false, |d| check(d, false)),
        spot_space("special characters in quoted attributes", &NAMED, t.pick(3, 4), true, |d| check(d, false)),
        seqs_with("lines", &LINES, 1, t.pick(2, 3), |s| s.join("\n") + "\n", |d| check(d, true)),
        seqs_with("wide", wide(), 1, 2, |s| s.join("\n") + "\n", |d| check(d, true)),
        seqs_with("enclosed", wide(), 2, 2, |s| format!("{}\n{}\n{}\n\n{}\n", s[0], s[1], s[0], s[1]), |d| check(d, true)),
        seqs_with("blocks", &LINES, 2, t.pick(2, 3), |s| s.join("\n\n") + "\n", |d| check(d, true)),
        seqs_with("inlines", &INLINES, 1, t.pick(3, 3), |s| format!("{}\n", s.concat()), |d| check(d, true)),
        seqs_with("more inlines", &INLINES2, 1, t.pick(2, 3), |s| format!("z {}z\n", s.concat()), |d| check(d, true)),
        seqs_with("deep inlines", &INLINES[..40], 4, t.pick(3, 4), |s| format!("{}\n", s.concat()), |d| check(d, true)),
        seqs_with("inlines after text", &INLINES, 1, t.pick(2, 3), |s| format!("z{}z\n", s.concat()), |d| check(d, true)),
        seqs_with("chars", &CHARS, 0, t.pick(3, 4), |s| s.concat(), |d| check(d, true)),
        seqs_with("attributes of blocks", &BLOCKATTR, 0, t.pick(1, 2), |s| {
          let l = format!("[{}]", s.join(","));
          BLOCKS.iter().filter(|b| !b.contains("++++")).map(|b| format!("{l}\n{b}\n\n")).collect()
        }, |d| check(d, true)),
        seqs_with("macro attr list", &ATTRTOK, 0, t.pick(3, 4), |s| format!("x image:f[{}] y link:q[{}]\n", s.concat(), s.concat()), |d| check(d, true)),
        seqs_with("psv table", &TABTOK, 1, t.pick(3, 4), |s| format!("|===\n{}\n|===\n", s.concat()), |d| check(d, true)),
        seqs_with("psv table cols", &TABTOK, 1, t.pick(3, 4), |s| format!("[%header%footer,cols=\"1a,2\"]\n|===\n{}\n|===\n", s.concat()), |d| check(d, true)),
        seqs_with("csv table", &TABTOK, 1, t.pick(3, 4), |s| format!(",===\n{}\n,===\n", s.concat()), |d| check(d, true)),
        seqs_with("header", &HEADER, 1, t.pick(2, 3), |s| format!("{}\n\nbody {{attr}}\n", s.join("\n")), |d| check(d, false)),
      ]
    },
  }
}
