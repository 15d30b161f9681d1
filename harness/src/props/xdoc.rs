//! C33: references between documents: what is elsewhere is linked by its
//! path, what was brought in is linked within the document.

use std::collections::BTreeMap;

use asciidork_core::SafeMode;
use serde_json::json;

use crate::conv::{self, Be, Job, Run, Src};
use crate::html;
use crate::orch::*;
use crate::rng::Rng;

pub struct Xdoc;

const EXTS: &[&str] = &[".adoc", ".adoc", ".adoc", ".asciidoc", ".asc", ".ad"];
const OTHERS: &[&str] = &[
  "other", "dir/other", "../up", "my.file", "using-.net", "sub.d/x", "/abs/path", "../../a.b/c-d", "x1", "intro",
];

#[derive(Clone)]
struct Env {
  prefix: Option<String>,
  relsuffix: Option<String>,
  outsuffix: String,
}

struct Part {
  /// path from the directory of the main document, without extension
  path: String,
  ext: &'static str,
  ids: Vec<(String, String)>,
}

struct G {
  r: Rng,
  n: u32,
  main: String,
  main_ext: &'static str,
  parts: Vec<Part>,
  ids: Vec<(String, String)>,
  own: Vec<(String, String)>,
  top: String,
  env: Env,
  /// expected links and the targets that lead nowhere in the document
  want: Vec<(String, String)>,
  away: Vec<String>,
  feats: Vec<&'static str>,
}

impl G {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  fn xref(&mut self) -> String {
    let is_macro = self.r.chance(1, 2);
    // path as written, whether it has the extension of a document, another, or none
    enum Kind {
      Here,
      Other,
    }
    let (base, ext, kind, ids): (String, String, Kind, Vec<(String, String)>) = match self.r.below(8) {
      0 | 1 => {
        self.feats.push("references to the document itself by name");
        let e = if self.r.chance(1, 2) { self.main_ext } else { "" };
        (self.main.clone(), e.into(), Kind::Here, self.own.clone())
      }
      2 | 3 | 4 if !self.parts.is_empty() => {
        self.feats.push("references to included files");
        let i = self.r.below(self.parts.len());
        let p = &self.parts[i];
        let e = if self.r.chance(1, 2) { p.ext } else { "" };
        (p.path.clone(), e.to_string(), Kind::Here, p.ids.clone())
      }
      _ => {
        self.feats.push("references to other documents");
        let b = self.r.pick_s(OTHERS).to_string();
        let last_dot = b.rsplit('/').next().unwrap().contains('.');
        let e = match self.r.below(4) {
          0 | 1 => ".adoc",
          2 if !last_dot => "",
          2 => ".adoc",
          _ => *self.r.pick(&[".pdf", ".1", ".html"]),
        };
        (b, e.to_string(), Kind::Other, self.ids.clone())
      }
    };
    // the macro only knows `.adoc`
    let ext = if is_macro && EXTS.contains(&ext.as_str()) && ext != ".adoc" { String::new() } else { ext };
    // ids of the target, of the document, of neither
    let id = match self.r.below(6) {
      0 => None,
      1 | 2 | 3 if !ids.is_empty() => Some(self.r.pick(&ids).clone().0),
      4 if !self.ids.is_empty() => {
        self.feats.push("ids found in both documents");
        Some(self.r.pick(&self.ids.clone()).clone().0)
      }
      _ => Some(format!("far{}", self.r.below(9))),
    };
    let hash = match &id {
      Some(_) => true,
      None => !is_macro || ext.is_empty() || self.r.chance(1, 2),
    };
    let target = format!("{base}{ext}{}{}", if hash { "#" } else { "" }, id.as_deref().unwrap_or(""));
    let (text_src, text) = match self.r.below(4) {
      0 => {
        let w = self.word();
        (Some(format!("the {w}")), Some(format!("the {w}")))
      }
      1 => {
        let w = self.word();
        (Some(format!("*{w}*")), Some(w))
      }
      _ => (None, None),
    };
    let src = match (is_macro, &text_src) {
      (true, t) => format!("xref:{target}[{}]", t.as_deref().unwrap_or("")),
      (false, Some(t)) => format!("<<{target},{t}>>"),
      (false, None) => format!("<<{target}>>"),
    };
    let (href, auto) = match kind {
      Kind::Here => {
        let auto = match &id {
          None => self.top.clone(),
          Some(id) => match self.ids.iter().find(|i| i.0 == *id) {
            Some((_, t)) => t.clone(),
            None => format!("[{id}]"),
          },
        };
        // (an id of the document that is not in that file is reported)
        if let Some(id) = id.as_ref().filter(|id| !ids.iter().any(|i| i.0 == **id)) {
          self.away.push(target.clone());
          debug_assert!(!id.is_empty());
        }
        (format!("#{}", id.as_deref().unwrap_or("")), auto)
      }
      Kind::Other => {
        self.away.push(target.clone());
        let suffix = self.env.relsuffix.as_deref().unwrap_or(&self.env.outsuffix);
        let own = EXTS.contains(&ext.as_str());
        let path = match (is_macro, own, ext.is_empty()) {
          (_, true, _) | (_, _, true) => format!("{base}{suffix}"),
          (false, ..) => format!("{base}{ext}{suffix}"),
          (true, ..) => format!("{base}{ext}"),
        };
        let path = format!("{}{path}", self.env.prefix.as_deref().unwrap_or(""));
        (format!("{path}{}", id.as_ref().map_or(String::new(), |i| format!("#{i}"))), path)
      }
    };
    self.want.push((href, text.unwrap_or(auto)));
    src
  }

  fn line(&mut self) -> String {
    let mut s = self.word();
    for _ in 0..self.r.range(1, 3) {
      let x = self.xref();
      let w = self.word();
      s.push_str(&format!(" {x} {w}"));
    }
    s
  }

  fn block(&mut self) -> String {
    match self.r.below(10) {
      0 => format!("* {}\n* {}\n", self.line(), self.line()),
      1 => format!("|===\n|{}\n|===\n", self.line()),
      2 => {
        self.feats.push("references in table cells");
        format!("|===\na|{}\n|===\n", self.line())
      }
      3 => format!("====\n{}\n\n{}\n====\n", self.line(), self.line()),
      4 => {
        // what is set between blocks holds from there on
        self.feats.push("suffixes and prefixes set between blocks");
        let s = self.entry();
        format!("{s}\n{}\n", self.line())
      }
      5 => format!("{}:: {}\n", self.word(), self.line()),
      6 => format!("{}\n{}\n", self.line(), self.line()),
      _ => format!("{}\n", self.line()),
    }
  }

  fn entry(&mut self) -> String {
    match self.r.below(5) {
      0 | 1 => {
        let v = self.r.pick_s(&["../", "docs/", "/site/", "v1-"]).to_string();
        self.env.prefix = Some(v.clone());
        format!(":relfileprefix: {v}\n")
      }
      2 => {
        let v = self.r.pick_s(&["/", ".htm", "/index.html"]).to_string();
        self.env.relsuffix = Some(v.clone());
        format!(":relfilesuffix: {v}\n")
      }
      3 => {
        let v = self.r.pick_s(&[".htm", ".xhtml", "/"]).to_string();
        self.env.outsuffix = v.clone();
        format!(":outfilesuffix: {v}\n")
      }
      _ => {
        self.env.relsuffix = None;
        ":!relfilesuffix:\n".into()
      }
    }
  }

  /// something to refer to
  fn goal(&mut self, id: &str, text: &str) -> String {
    match self.r.below(3) {
      0 => format!("[[{id},{text}]]\n{}\n", self.word()),
      1 => format!("[#{id}]\n== {text}\n\n{}\n", self.word()),
      _ => format!("{} [[{id},{text}]]{}\n", self.word(), self.word()),
    }
  }
}

impl Prop for Xdoc {
  fn id(&self) -> &'static str {
    "C33"
  }
  fn rule(&self) -> &'static str {
    "documents made of a main file and files included from it (nested, in directories, with several extensions), with references in both syntaxes to the document itself by name, to included files and to other documents, with and without ids, extensions and text, under relfileprefix, relfilesuffix and outfilesuffix set in the header, from outside and between blocks; target and text of every link compared with an independent computation"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 100_000,
      Tier::Thorough => 1_000_000,
    }
  }
  fn assumptions(&self) -> Vec<String> {
    vec![
      "files are included as a whole; one included by tags or lines is not referred to (the existing tests fix that it counts as included)".into(),
      "the macro form is given the extension .adoc, none, or that of no document".into(),
    ]
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let be = if r.chance(1, 2) { Be::Dr } else { Be::H5 };
    let main = r.pick_s(&["main", "my-doc", "a_b", "index"]).to_string();
    let main_ext = r.pick_s(EXTS);
    let mut job = Job::new("").be(be).safe(SafeMode::Safe).at(Src::Path(format!("/docs/{main}{main_ext}")));
    let mut g = G {
      r,
      n: 0,
      main,
      main_ext,
      parts: vec![],
      ids: vec![],
      own: vec![],
      top: "[^top]".into(),
      env: Env { prefix: None, relsuffix: None, outsuffix: ".html".into() },
      want: vec![],
      away: vec![],
      feats: vec![],
    };
    let mut src = String::new();
    if g.r.chance(1, 2) {
      let w = g.word();
      g.top = format!("Title {w}");
      src.push_str(&format!("= Title {w}\n"));
      if g.r.chance(1, 3) {
        src = format!("[reftext=Ref {w}]\n{src}");
        g.top = format!("Ref {w}");
      }
      if g.r.chance(1, 4) {
        src.push_str(&g.entry());
      }
      src.push('\n');
    }
    if g.r.chance(1, 5) {
      job = job.attr("relfilesuffix", "/");
      // entries in the document do not change it
      g.feats.push("suffix set from outside");
    }
    let locked = job.attrs.iter().any(|a| a.0 == "relfilesuffix");
    if locked {
      g.env.relsuffix = Some("/".into());
    }
    // what there is to refer to is decided first
    let goals = g.r.below(4);
    for i in 0..goals {
      let w = g.word();
      g.ids.push((format!("g{i}"), format!("Goal {w}")));
    }
    let own = g.ids.clone();
    g.own = own.clone();
    for i in 0..g.r.below(4) {
      let dir = g.r.pick_s(&["", "", "sub/", "sub.d/"]);
      let ext = g.r.pick_s(EXTS);
      let mut ids = vec![];
      for k in 0..g.r.below(3) {
        let w = g.word();
        ids.push((format!("p{i}-{k}"), format!("Goal {w}")));
      }
      g.ids.extend(ids.clone());
      g.parts.push(Part { path: format!("{dir}part{i}"), ext, ids });
    }
    // every file is included once, by the main one or by one before it
    let parents: Vec<usize> = (0..g.parts.len()).map(|i| if i > 0 && g.r.chance(1, 3) { g.r.below(i) } else { usize::MAX }).collect();
    // (in reading order, as what is set between blocks holds from there on)
    fn emit(g: &mut G, me: usize, own: &[(String, String)], parents: &[usize], at: &str, files: &mut BTreeMap<String, Vec<u8>>) -> String {
      let ids = if me == usize::MAX { own.to_vec() } else { g.parts[me].ids.clone() };
      let dir = |p: &str| p.rsplit_once('/').map_or(String::new(), |d| format!("{}/", d.0));
      let here = if me == usize::MAX { String::new() } else { dir(&g.parts[me].path) };
      let mut items: Vec<(u8, usize)> = (0..ids.len()).map(|i| (0, i)).collect();
      items.extend((0..parents.len()).filter(|i| parents[*i] == me).map(|i| (1, i)));
      items.extend((0..g.r.range(1, 3)).map(|i| (2, i)));
      for i in (1..items.len()).rev() {
        let j = g.r.below(i + 1);
        items.swap(i, j);
      }
      let mut out = String::new();
      for (k, i) in items {
        if !out.is_empty() {
          out.push('\n');
        }
        match k {
          0 => {
            let (id, t) = ids[i].clone();
            out.push_str(&g.goal(&id, &t));
          }
          1 => {
            let path = format!("{}{}", g.parts[i].path, g.parts[i].ext);
            let full = path.clone();
            let rel = if here.is_empty() {
              path
            } else if let Some(rest) = path.strip_prefix(&here) {
              rest.to_string()
            } else {
              format!("../{path}")
            };
            if !here.is_empty() {
              g.feats.push("files included from directories");
            }
            // where a resolver that takes paths as they come looks for it
            let at = format!("{at}{rel}");
            let (in_cell, env) = (me == usize::MAX && g.r.chance(1, 6), g.env.clone());
            let s = emit(g, i, own, parents, &dir(&at), files);
            files.insert(format!("/docs/{full}"), s.clone().into_bytes());
            files.insert(at, s.clone().into_bytes());
            if in_cell && !s.contains("|===") && !s.contains("include::") {
              g.feats.push("files included in table cells");
              // what a cell sets is its own
              g.env = env;
              out.push_str(&format!("|===\na|\ninclude::{rel}[]\n|===\n"));
            } else {
              out.push_str(&format!("include::{rel}[]\n"));
            }
          }
          _ => out.push_str(&g.block()),
        }
      }
      out
    }
    let mut files = BTreeMap::new();
    // the suffix from outside wins over the entries
    let body = if locked {
      let save = g.env.clone();
      let mut body;
      loop {
        (g.want, g.away, files) = (vec![], vec![], BTreeMap::new());
        g.env = save.clone();
        body = emit(&mut g, usize::MAX, &own, &parents, "/docs/", &mut files);
        if !body.contains("relfilesuffix:") && !files.values().any(|f| String::from_utf8_lossy(f).contains("relfilesuffix:")) && !src.contains("relfilesuffix:") {
          break;
        }
        if src.contains("relfilesuffix:") {
          return;
        }
      }
      body
    } else {
      emit(&mut g, usize::MAX, &own, &parents, "/docs/", &mut files)
    };
    src.push_str(&body);
    for f in &g.feats {
      cx.count(f);
    }
    cx.add("links compared", g.want.len() as u64);
    cx.nontrivial(&format!("{src}{files:?}{}", g.main));
    job.files = Some(files);
    job.base_dir = Some("/docs/".into());
    job.src = src;
    cx.eval();
    match conv::run(&job) {
      Run::Panic { msg, loc } => cx.fail(format!("panic {loc}"), msg, job.describe()),
      Run::Done(d) => {
        if let Some(w) = d.diags.iter().find(|w| !g.away.iter().any(|a| w.message.contains(&format!("`{a}`")))) {
          cx.fail(format!("diagnostic: {}", w.message.split('`').next().unwrap_or("")), format!("{w:?}"), job.describe());
          return;
        }
        let h = d.html.unwrap_or_default();
        match html::parse(&h) {
          Err(m) => cx.fail("malformed html", format!("{m}\n{h}"), job.describe()),
          Ok(n) => {
            let got: Vec<(String, String)> = html::find_all(&n, &|e| e.tag == "a" && e.attr("href").is_some())
              .iter()
              .map(|e| (e.attr("href").unwrap().to_string(), e.text()))
              .collect();
            if got != g.want {
              let i = (0..g.want.len().max(got.len())).find(|i| got.get(*i) != g.want.get(*i)).unwrap_or(0);
              cx.fail("link differs", format!("link {i}: expected {:?}\n got {:?}", g.want.get(i), got.get(i)), job.describe());
            }
          }
        }
      }
    }
    cx.sample(|| json!(job.src));
  }
}
