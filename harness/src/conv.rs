//! Runs the real converter in-process, capturing panics.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;

use asciidork_core::{AttrValue, DocType, JobAttr, JobSettings, SafeMode};
use asciidork_parser::includes::*;
use asciidork_parser::prelude::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Be {
  Dr,
  H5,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Src {
  Tmp,
  Path(String),
  Stdin(String),
}

#[derive(Clone, Debug)]
pub struct Job {
  pub src: String,
  pub at: Src,
  pub doctype: Option<DocType>,
  pub safe: SafeMode,
  pub embedded: bool,
  pub strict: bool,
  /// name, value, modifiable
  pub attrs: Vec<(String, AttrValue, bool)>,
  pub be: Be,
  pub files: Option<BTreeMap<String, Vec<u8>>>,
  pub base_dir: Option<String>,
  pub now: Option<u64>,
  pub mtime: Option<u64>,
  pub reproducible: Option<u64>,
  pub plugins: Vec<String>,
}

impl Job {
  pub fn new(src: impl Into<String>) -> Job {
    Job {
      src: src.into(),
      at: Src::Tmp,
      doctype: None,
      safe: SafeMode::Secure,
      embedded: true,
      strict: false,
      attrs: vec![],
      be: Be::Dr,
      files: None,
      base_dir: None,
      now: Some(1_700_000_000),
      mtime: None,
      reproducible: None,
      plugins: vec![],
    }
  }
  pub fn strict(mut self) -> Job {
    self.strict = true;
    self
  }
  pub fn be(mut self, be: Be) -> Job {
    self.be = be;
    self
  }
  pub fn safe(mut self, s: SafeMode) -> Job {
    self.safe = s;
    self
  }
  pub fn attr(mut self, k: &str, v: impl Into<AttrValue>) -> Job {
    self.attrs.push((k.to_string(), v.into(), false));
    self
  }
  pub fn soft_attr(mut self, k: &str, v: impl Into<AttrValue>) -> Job {
    self.attrs.push((k.to_string(), v.into(), true));
    self
  }
  pub fn standalone(mut self) -> Job {
    self.embedded = false;
    self
  }
  pub fn doctype(mut self, d: DocType) -> Job {
    self.doctype = Some(d);
    self
  }
  pub fn files(mut self, f: BTreeMap<String, Vec<u8>>) -> Job {
    self.files = Some(f);
    self
  }
  pub fn at(mut self, at: Src) -> Job {
    self.at = at;
    self
  }

  pub fn from_json(v: &serde_json::Value) -> Job {
    let mut j = Job::new(v["src"].as_str().unwrap_or(""));
    let at = v["at"].as_str().unwrap_or("Tmp");
    let arg = at.split('"').nth(1).unwrap_or("").to_string();
    j.at = if at.starts_with("Path") {
      Src::Path(arg)
    } else if at.starts_with("Stdin") {
      Src::Stdin(arg)
    } else {
      Src::Tmp
    };
    j.doctype = v["doctype"].as_str().and_then(|d| d.parse().ok());
    j.safe = match v["safe"].as_str().unwrap_or("") {
      "Unsafe" => SafeMode::Unsafe,
      "Safe" => SafeMode::Safe,
      "Server" => SafeMode::Server,
      _ => SafeMode::Secure,
    };
    j.embedded = v["embedded"].as_bool().unwrap_or(true);
    j.strict = v["strict"].as_bool().unwrap_or(false);
    if v["backend"] == "H5" {
      j.be = Be::H5;
    }
    for a in v["attrs"].as_array().into_iter().flatten() {
      let a = a.as_str().unwrap_or("");
      let (k, rest) = a.split_once('=').unwrap_or((a, "Bool(true)"));
      let soft = rest.ends_with('@');
      let val = if rest.starts_with("Bool(true") {
        AttrValue::Bool(true)
      } else if rest.starts_with("Bool(false") {
        AttrValue::Bool(false)
      } else {
        AttrValue::String(rest.split('"').nth(1).unwrap_or("").to_string())
      };
      j.attrs.push((k.to_string(), val, soft));
    }
    if let Some(f) = v["files"].as_object() {
      j.files = Some(f.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").as_bytes().to_vec())).collect());
      j.base_dir = Some("/docs".into());
    }
    j
  }

  pub fn describe(&self) -> serde_json::Value {
    serde_json::json!({
      "src": self.src,
      "at": format!("{:?}", self.at),
      "doctype": self.doctype.map(|d| d.to_str()),
      "safe": format!("{:?}", self.safe),
      "embedded": self.embedded,
      "strict": self.strict,
      "attrs": self.attrs.iter().map(|(k, v, m)| format!("{k}={v:?}{}", if *m { "@" } else { "" })).collect::<Vec<_>>(),
      "backend": format!("{:?}", self.be),
      "files": self.files.as_ref().map(|f| f.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).to_string())).collect::<BTreeMap<_, _>>()),
    })
  }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Diag {
  pub line_num: u32,
  pub line: String,
  pub message: String,
  pub start: u32,
  pub width: u32,
  pub file: String,
}

impl Diag {
  pub fn of(d: &Diagnostic) -> Diag {
    Diag {
      line_num: d.line_num,
      line: d.line.clone(),
      message: d.message.clone(),
      start: d.underline_start,
      width: d.underline_width,
      file: d.source_file.file_name().to_string(),
    }
  }
}

#[derive(Debug, Clone)]
pub struct Done {
  /// None when the parse was rejected
  pub html: Option<String>,
  pub diags: Vec<Diag>,
  pub resolved: Vec<String>,
}

#[derive(Debug, Clone)]
pub enum Run {
  Done(Done),
  Panic { msg: String, loc: String },
}

impl Run {
  pub fn done(&self) -> Option<&Done> {
    match self {
      Run::Done(d) => Some(d),
      _ => None,
    }
  }
  pub fn html(&self) -> Option<&str> {
    self.done().and_then(|d| d.html.as_deref())
  }
}

thread_local! {
  static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
  static CAPTURE: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
  let prev = panic::take_hook();
  panic::set_hook(Box::new(move |info| {
    if CAPTURE.with(|c| *c.borrow()) {
      let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
        s.to_string()
      } else if let Some(s) = info.payload().downcast_ref::<String>() {
        s.clone()
      } else {
        "?".into()
      };
      let loc = info
        .location()
        .map(|l| format!("{}:{}", l.file().rsplit("/repo/").next().unwrap_or(l.file()), l.line()))
        .unwrap_or_default();
      if std::env::var_os("VERIF_BT").is_some() {
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
      }
      LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    } else {
      prev(info);
    }
  }));
}

/// Runs `f`, turning a panic into Err((message, location)).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
  CAPTURE.with(|c| *c.borrow_mut() = true);
  let r = panic::catch_unwind(AssertUnwindSafe(f));
  CAPTURE.with(|c| *c.borrow_mut() = false);
  r.map_err(|_| LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default())
}

#[derive(Clone)]
pub struct MemResolver {
  pub files: Rc<BTreeMap<String, Vec<u8>>>,
  pub base: Option<String>,
  pub log: Rc<RefCell<Vec<String>>>,
}

impl IncludeResolver for MemResolver {
  fn resolve(
    &mut self,
    target: IncludeTarget,
    buffer: &mut dyn IncludeBuffer,
    _safe: SafeMode,
  ) -> std::result::Result<usize, ResolveError> {
    let t = match &target {
      IncludeTarget::FilePath(p) => p.clone(),
      IncludeTarget::Uri(u) => u.clone(),
    };
    self.log.borrow_mut().push(t.clone());
    match self.files.get(&t) {
      Some(b) => {
        buffer.initialize(b.len());
        buffer.as_bytes_mut()[..b.len()].copy_from_slice(b);
        Ok(b.len())
      }
      None => Err(ResolveError::NotFound),
    }
  }
  fn get_base_dir(&self) -> Option<String> {
    self.base.clone()
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

pub fn source_file(at: &Src) -> SourceFile {
  use asciidork_core::Path;
  match at {
    Src::Tmp => SourceFile::Tmp,
    Src::Path(p) => SourceFile::Path(Path::new(p)),
    Src::Stdin(cwd) => SourceFile::Stdin { cwd: Path::new(cwd) },
  }
}

/// Sets up a parser exactly as the shipped front ends do.
pub fn with_parser<T>(
  job: &Job,
  f: impl FnOnce(Parser<'_>, Rc<RefCell<Vec<String>>>) -> T,
) -> T {
  use asciidork_backend_html5s::Html5s;
  use asciidork_dr_html_backend::{AsciidoctorHtml, Backend};
  let bump = &Bump::new();
  let mut parser = Parser::from_str(&job.src, source_file(&job.at), bump);
  let mut js = JobSettings {
    doctype: job.doctype,
    safe_mode: job.safe,
    embedded: job.embedded,
    strict: job.strict,
    ..JobSettings::default()
  };
  for (k, v, m) in &job.attrs {
    let a = if *m { JobAttr::modifiable(v.clone()) } else { JobAttr::readonly(v.clone()) };
    js.job_attrs.insert_unchecked(k.clone(), a);
  }
  match job.be {
    Be::Dr => AsciidoctorHtml::set_job_attrs(&mut js.job_attrs),
    Be::H5 => Html5s::set_job_attrs(&mut js.job_attrs),
  }
  parser.apply_job_settings(js);
  if !job.plugins.is_empty() {
    parser.register_plugin_macros(&job.plugins);
  }
  let log = Rc::new(RefCell::new(vec![]));
  if let Some(files) = &job.files {
    parser.set_resolver(Box::new(MemResolver {
      files: Rc::new(files.clone()),
      base: job.base_dir.clone(),
      log: log.clone(),
    }));
  }
  if let Some(now) = job.now {
    parser.provide_timestamps(now, job.mtime, job.reproducible);
  }
  f(parser, log)
}

pub fn convert_doc(doc: asciidork_ast::prelude::Document<'_>, be: Be) -> String {
  match be {
    Be::Dr => asciidork_dr_html_backend::convert(doc).expect("convert"),
    Be::H5 => asciidork_backend_html5s::convert(doc).expect("convert"),
  }
}

pub fn run(job: &Job) -> Run {
  let r = guarded(|| {
    with_parser(job, |parser, log| match parser.parse() {
      Ok(res) => {
        let diags = res.warnings.iter().map(Diag::of).collect();
        let html = convert_doc(res.document, job.be);
        let resolved = log.borrow().clone();
        Done { html: Some(html), diags, resolved }
      }
      Err(ds) => Done {
        html: None,
        diags: ds.iter().map(Diag::of).collect(),
        resolved: log.borrow().clone(),
      },
    })
  });
  match r {
    Ok(d) => Run::Done(d),
    Err((msg, loc)) => Run::Panic { msg, loc },
  }
}
