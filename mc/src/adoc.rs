//! Driving the real asciidork crates.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use asciidork_backend::Backend;
use asciidork_core::{AttrValue, DocType, JobAttr, JobSettings, Path, SafeMode};
use asciidork_parser::includes::*;
use asciidork_parser::prelude::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Be {
  Dr,
  H5,
}
pub const BACKENDS: [Be; 2] = [Be::Dr, Be::H5];

pub type Log = Rc<RefCell<Vec<String>>>;

#[derive(Clone, Default)]
pub struct MemResolver {
  pub files: Rc<BTreeMap<String, Vec<u8>>>,
  pub base: Option<String>,
  pub log: Log,
  pub uri_ok: bool,
  pub normalize: bool,
}

impl IncludeResolver for MemResolver {
  fn resolve(
    &mut self,
    target: IncludeTarget,
    buffer: &mut dyn IncludeBuffer,
    _safe: SafeMode,
  ) -> Result<usize, ResolveError> {
    let key = match target {
      IncludeTarget::FilePath(p) if self.normalize => {
        let mut out: Vec<&str> = vec![];
        for seg in p.split('/') {
          match seg {
            "" | "." => {}
            ".." => {
              out.pop();
            }
            s => out.push(s),
          }
        }
        format!("/{}", out.join("/"))
      }
      IncludeTarget::FilePath(p) => p,
      IncludeTarget::Uri(u) => format!("uri:{u}"),
    };
    self.log.borrow_mut().push(key.clone());
    match self.files.get(&key) {
      Some(s) => {
        buffer.initialize(s.len());
        buffer.as_bytes_mut().copy_from_slice(s);
        Ok(s.len())
      }
      None => Err(ResolveError::NotFound),
    }
  }
  fn get_base_dir(&self) -> Option<String> {
    self.base.clone()
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

#[derive(Clone, Debug)]
pub enum Src {
  Tmp,
  Stdin(String),
  File(String),
}

#[derive(Clone)]
pub struct Job {
  pub safe: SafeMode,
  pub strict: bool,
  pub embedded: bool,
  pub doctype: Option<DocType>,
  pub attrs: Vec<(String, AttrValue, bool)>,
  pub files: Rc<BTreeMap<String, Vec<u8>>>,
  pub base: Option<String>,
  pub resolver: bool,
  pub src: Src,
  pub now: u64,
  pub mtime: Option<u64>,
  pub repro: Option<u64>,
  pub log: Log,
  pub backend_attrs: bool,
  pub normalize_paths: bool,
}

impl Default for Job {
  fn default() -> Self {
    Job {
      safe: SafeMode::Unsafe,
      strict: false,
      embedded: true,
      doctype: None,
      attrs: vec![],
      files: Rc::default(),
      base: Some("/base".into()),
      resolver: true,
      src: Src::File("/base/doc.adoc".into()),
      now: 1_734_960_586,
      mtime: Some(1_734_872_889),
      repro: None,
      log: Log::default(),
      backend_attrs: true,
      normalize_paths: false,
    }
  }
}

impl Job {
  pub fn strict() -> Self {
    Job { strict: true, ..Job::default() }
  }
  pub fn standalone() -> Self {
    Job { embedded: false, ..Job::default() }
  }
  pub fn with_files(mut self, files: &[(&str, &str)]) -> Self {
    self.files = Rc::new(files.iter().map(|(a, b)| (a.to_string(), b.as_bytes().to_vec())).collect());
    self
  }
  pub fn with_bytes(mut self, name: &str, bytes: &[u8]) -> Self {
    self.files = Rc::new([(name.to_string(), bytes.to_vec())].into());
    self
  }
  pub fn attr(mut self, k: &str, v: impl Into<AttrValue>, readonly: bool) -> Self {
    self.attrs.push((k.into(), v.into(), readonly));
    self
  }
  fn settings(&self, be: Be) -> JobSettings {
    let mut s = JobSettings {
      safe_mode: self.safe,
      strict: self.strict,
      embedded: self.embedded,
      doctype: self.doctype,
      ..JobSettings::default()
    };
    for (k, v, ro) in &self.attrs {
      let a = if *ro { JobAttr::readonly(v.clone()) } else { JobAttr::modifiable(v.clone()) };
      s.job_attrs.insert_unchecked(k.clone(), a);
    }
    if self.backend_attrs {
      match be {
        Be::Dr => asciidork_dr_html_backend::AsciidoctorHtml::set_job_attrs(&mut s.job_attrs),
        Be::H5 => asciidork_backend_html5s::Html5s::set_job_attrs(&mut s.job_attrs),
      }
    }
    s
  }
  pub fn parser<'a>(&self, src: &str, be: Be, bump: &'a Bump) -> Parser<'a> {
    let file = match &self.src {
      Src::Tmp => SourceFile::Tmp,
      Src::Stdin(cwd) => SourceFile::Stdin { cwd: Path::new(cwd.clone()) },
      Src::File(p) => SourceFile::Path(Path::new(p.clone())),
    };
    let mut p = Parser::from_str(src, file, bump);
    p.apply_job_settings(self.settings(be));
    if self.resolver {
      p.set_resolver(Box::new(MemResolver {
        files: self.files.clone(),
        base: self.base.clone(),
        log: self.log.clone(),
        uri_ok: true,
        normalize: self.normalize_paths,
      }));
    }
    p.provide_timestamps(self.now, self.mtime, self.repro);
    p
  }
  pub fn render(&self, src: &str, be: Be) -> Out {
    let bump = Bump::with_capacity(src.len() * 4 + 1024);
    let p = self.parser(src, be, &bump);
    match p.parse() {
      Err(diags) => Out { html: None, diags: diags.into_iter().map(Diag::from).collect() },
      Ok(r) => {
        let diags = r.warnings.into_iter().map(Diag::from).collect();
        let html = match be {
          Be::Dr => asciidork_dr_html_backend::convert(r.document),
          Be::H5 => asciidork_backend_html5s::convert(r.document),
        };
        Out { html: Some(html.unwrap()), diags }
      }
    }
  }
  /// html, or panic (turned into a violation by the engine) when rejected
  pub fn html(&self, src: &str, be: Be) -> String {
    let o = self.render(src, be);
    match o.html {
      Some(h) => h,
      None => panic!("unexpected rejection: {:?}", o.diags),
    }
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Diag {
  pub line_num: u32,
  pub line: String,
  pub message: String,
  pub start: u32,
  pub width: u32,
  pub file: String,
}
impl From<Diagnostic> for Diag {
  fn from(d: Diagnostic) -> Self {
    Diag {
      line_num: d.line_num,
      line: d.line,
      message: d.message,
      start: d.underline_start,
      width: d.underline_width,
      file: d.source_file.file_name().to_string(),
    }
  }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Out {
  pub html: Option<String>,
  pub diags: Vec<Diag>,
}
