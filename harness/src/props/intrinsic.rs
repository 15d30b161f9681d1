//! C32: attributes a document has without setting them: where it was read,
//! when, how it is converted, and the characters and labels that have names.

use std::collections::BTreeMap;

use asciidork_core::{DocType, SafeMode};
use serde_json::json;

use crate::conv::{self, Be, Job, Run, Src};
use crate::html;
use crate::orch::*;
use crate::rng::Rng;

pub struct Intrinsic;

/// year, month, day, hour, minute, second of a moment
fn civil(t: u64) -> (i64, u32, u32, u64, u64, u64) {
  let (mut days, s) = ((t / 86400) as i64, t % 86400);
  let mut y = 1970;
  loop {
    let n = if leap(y) { 366 } else { 365 };
    if days < n {
      break;
    }
    days -= n;
    y += 1;
  }
  let mut m = 1;
  for n in [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31] {
    if days < n {
      break;
    }
    days -= n;
    m += 1;
  }
  (y, m, days as u32 + 1, s / 3600, s / 60 % 60, s % 60)
}

fn leap(y: i64) -> bool {
  (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}

const CHARS: &[(&str, &str)] = &[
  ("empty", ""),
  ("blank", ""),
  ("sp", " "),
  ("nbsp", "\u{a0}"),
  ("zwsp", "\u{200b}"),
  ("wj", "\u{2060}"),
  ("apos", "'"),
  ("quot", "\""),
  ("lsquo", "\u{2018}"),
  ("rsquo", "\u{2019}"),
  ("ldquo", "\u{201c}"),
  ("rdquo", "\u{201d}"),
  ("deg", "\u{b0}"),
  ("plus", "+"),
  ("brvbar", "\u{a6}"),
  ("vbar", "|"),
  ("amp", "&"),
  ("lt", "<"),
  ("gt", ">"),
  ("startsb", "["),
  ("endsb", "]"),
  ("caret", "^"),
  ("asterisk", "*"),
  ("tilde", "~"),
  ("backslash", "\\"),
  ("backtick", "`"),
  ("two-colons", "::"),
  ("two-semicolons", ";;"),
  ("cpp", "C++"),
  ("pp", "++"),
  ("note-caption", "Note"),
  ("tip-caption", "Tip"),
  ("important-caption", "Important"),
  ("warning-caption", "Warning"),
  ("caution-caption", "Caution"),
  ("example-caption", "Example"),
  ("figure-caption", "Figure"),
  ("table-caption", "Table"),
  ("appendix-caption", "Appendix"),
  ("version-label", "Version"),
  ("toc-title", "Table of Contents"),
  ("untitled-label", "Untitled"),
];

const DIRS: &[&str] = &["/docs", "/docs/sub.dir", "/a b/c", "/"];
const STEMS: &[&str] = &["main", "my.file", "read-me", "a_b"];
const EXTS: &[&str] = &[".adoc", ".asciidoc", ".txt", ""];

struct G {
  r: Rng,
  n: u32,
  vals: BTreeMap<String, String>,
  flags: Vec<(String, bool)>,
  files: BTreeMap<String, Vec<u8>>,
  includes: bool,
  feats: Vec<&'static str>,
}

impl G {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }
  /// text with references and what it shows
  fn line(&mut self) -> (String, String) {
    let w = self.word();
    let (mut s, mut t) = (w.clone(), w);
    for _ in 0..self.r.range(1, 4) {
      let (k, v) = if self.r.chance(2, 5) {
        self.feats.push("named characters and labels");
        let (k, v) = *self.r.pick(CHARS);
        (k.to_string(), v.to_string())
      } else {
        let i = self.r.below(self.vals.len());
        let (k, v) = self.vals.iter().nth(i).unwrap();
        (k.clone(), v.clone())
      };
      let w = self.word();
      let sep = self.r.pick_s(&["", " ", "-", ":"]);
      // (`->` would be an arrow where a value is read again)
      let sep = if v == ">" && sep == "-" { ":" } else { sep };
      let k = if self.r.chance(1, 10) { k.to_uppercase() } else { k };
      s.push_str(&format!("{sep}{{{k}}}{w}"));
      t.push_str(&format!("{sep}{v}{w}"));
    }
    (s, t)
  }
  fn block(&mut self, depth: usize) -> (String, Vec<String>) {
    match self.r.below(10) {
      0 | 1 => {
        // a condition on one of them
        let (s, t) = self.line();
        let i = self.r.below(self.flags.len());
        let (k, on) = self.flags[i].clone();
        let neg = self.r.chance(1, 3);
        self.feats.push("conditions");
        let shown = on != neg;
        let d = if neg { "ifndef" } else { "ifdef" };
        (format!("{d}::{k}[]\n{s}\n\nendif::[]\n"), if shown { vec![t] } else { vec![] })
      }
      2 => {
        let (s, t) = self.line();
        let i = self.r.below(self.vals.len());
        let (k, v) = self.vals.iter().nth(i).unwrap();
        let (k, v) = (k.clone(), v.clone());
        if v.contains('"') || k == "safe-mode-level" {
          return (format!("{s}\n"), vec![t]);
        }
        let eq = self.r.chance(1, 2);
        self.feats.push("comparisons");
        let right = self.r.chance(2, 3);
        let other = if right { v } else { "nope".into() };
        let op = if eq { "==" } else { "!=" };
        (format!("ifeval::[\"{{{k}}}\" {op} \"{other}\"]\n{s}\n\nendif::[]\n"), if eq == right { vec![t] } else { vec![] })
      }
      3 if depth == 0 => {
        self.feats.push("table cells");
        // a cell is a document of its own, always an article
        let (vals, flags) = (self.vals.clone(), self.flags.clone());
        // ...but its conditions are decided where the table is read
        if self.r.chance(1, 3) {
          let i = self.r.below(self.flags.len());
          let (k, on) = self.flags[i].clone();
          self.vals.insert("doctype".into(), "article".into());
          let (s, t) = self.line();
          self.vals = vals;
          let (s, t) = (format!("ifdef::{k}[]\n{s}\n\nendif::[]\n"), if on { vec![t] } else { vec![] });
          return (format!("|===\na|\n{s}\n|===\n"), t);
        }
        self.vals.insert("doctype".into(), "article".into());
        for (k, on) in self.flags.iter_mut() {
          if let Some(d) = k.strip_prefix("doctype-") {
            *on = d == "article";
          }
        }
        let (s, t) = loop {
          let (s, t) = self.block(1);
          if !s.starts_with("if") {
            break (s, t);
          }
        };
        (self.vals, self.flags) = (vals, flags);
        (format!("|===\na|\n{s}\n|===\n"), t)
      }
      4 if depth == 0 && self.includes => {
        self.feats.push("included files");
        let (s, t) = self.block(1);
        let name = format!("part{}.inc.adoc", self.files.len());
        self.files.insert(name.clone(), s.into_bytes());
        (format!("include::{name}[]\n"), t)
      }
      5 => {
        let (s, t) = self.line();
        let n = self.word();
        // resolved where it is set
        (format!(":x{n}: {s}\n\n{{x{n}}}\n"), vec![t])
      }
      _ => {
        let (s, t) = self.line();
        (format!("{s}\n"), vec![t])
      }
    }
  }
}

impl Prop for Intrinsic {
  fn id(&self) -> &'static str {
    "C32"
  }
  fn rule(&self) -> &'static str {
    "documents that show, compare and test intrinsic attributes (file name and place, dates, safe mode, backend, doctype, named characters, default labels) in text, attribute values, conditions, table cells and included files, under generated paths, clocks, safe modes, backends and doctypes; the text of every paragraph compared with an independent computation"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 120_000,
      Tier::Thorough => 1_000_000,
    }
  }
  fn assumptions(&self) -> Vec<String> {
    vec!["times are in UTC, as the implementation defines; dates between 1970 and 2200".into()]
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let be = if r.chance(1, 2) { Be::Dr } else { Be::H5 };
    let safe = *r.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
    let mut job = Job::new("").be(be).safe(safe);
    let mut vals: BTreeMap<String, String> = BTreeMap::new();
    let mut flags: Vec<(String, bool)> = vec![];
    let mut put = |k: &str, v: &str| {
      vals.insert(k.to_string(), v.to_string());
    };
    let (dir, stem, ext) = (*r.pick(DIRS), *r.pick(STEMS), *r.pick(EXTS));
    let ext = if ext.is_empty() && stem.contains('.') { ".adoc" } else { ext };
    let open = matches!(safe, SafeMode::Unsafe | SafeMode::Safe);
    if r.chance(4, 5) {
      let file = format!("{stem}{ext}");
      let path = if dir == "/" { format!("/{file}") } else { format!("{dir}/{file}") };
      job = job.at(Src::Path(path.clone()));
      put("docname", stem);
      put("docfilesuffix", ext);
      put("docfile", if open { &path } else { &file });
      put("docdir", if open { dir } else { "" });
      if !open {
        put("user-home", ".");
      }
      cx.count("read from a file");
    }
    let clock = |r: &mut Rng| match r.below(5) {
      0 => r.below(86400 * 800) as u64,
      // around new year and the end of February
      1 => 946_684_800 + (r.below(3) as u64) * 86400 - 1,
      2 => 951_782_400 + r.below(3 * 86400) as u64,
      3 => 4_107_542_400 + r.below(3 * 86400) as u64 - 86400,
      _ => r.below(7_000_000_000) as u64,
    };
    let now = clock(&mut r);
    let mtime = r.chance(1, 2).then(|| clock(&mut r));
    let repro = r.chance(1, 4).then(|| clock(&mut r));
    (job.now, job.mtime, job.reproducible) = (Some(now), mtime, repro);
    let own_date = r.chance(1, 6);
    if own_date {
      job = job.attr("docdate", "2015-03-04");
      cx.count("own docdate");
    }
    for (p, t) in [("doc", repro.or(mtime).unwrap_or(now)), ("local", repro.unwrap_or(now))] {
      let (y, mo, d, h, mi, s) = civil(t);
      let (y, date) = if p == "doc" && own_date { (2015, "2015-03-04".to_string()) } else { (y, format!("{y:04}-{mo:02}-{d:02}")) };
      let time = format!("{h:02}:{mi:02}:{s:02}+0000");
      put(&format!("{p}year"), &y.to_string());
      put(&format!("{p}date"), &date);
      put(&format!("{p}time"), &time);
      put(&format!("{p}datetime"), &format!("{date} {time}"));
    }
    let (name, level) = match safe {
      SafeMode::Unsafe => ("unsafe", "0"),
      SafeMode::Safe => ("safe", "1"),
      SafeMode::Server => ("server", "10"),
      SafeMode::Secure => ("secure", "20"),
    };
    put("safe-mode-name", &name.to_uppercase());
    put("safe-mode-level", level);
    for n in ["unsafe", "safe", "server", "secure"] {
      flags.push((format!("safe-mode-{n}"), n == name));
    }
    put("basebackend", "html");
    put("outfilesuffix", ".html");
    flags.push(("basebackend-html".into(), true));
    flags.push(("basebackend-docbook".into(), false));
    let book = r.chance(1, 3);
    let mut head = String::new();
    if book {
      if r.chance(1, 2) {
        job = job.doctype(DocType::Book);
      } else {
        head.push_str(":doctype: book\n");
      }
    }
    put("doctype", if book { "book" } else { "article" });
    flags.push(("doctype-book".into(), book));
    flags.push(("doctype-article".into(), !book));
    for k in ["docname", "docdir", "docfile", "docyear", "localtime"] {
      let on = vals.contains_key(k);
      flags.push((k.into(), on));
    }
    let mut g = G { r, n: 0, vals, flags, files: BTreeMap::new(), includes: safe != SafeMode::Secure, feats: vec![] };
    let mut src = head;
    let mut want = vec![];
    for _ in 0..g.r.range(1, 5) {
      let (s, t) = g.block(0);
      if !src.is_empty() {
        src.push('\n');
      }
      src.push_str(&s);
      want.extend(t);
    }
    for f in &g.feats {
      cx.count(f);
    }
    cx.add("references shown", src.matches('{').count() as u64);
    cx.nontrivial(&format!("{src}{:?}{safe:?}{now}", job.at));
    let root = match &job.at {
      Src::Path(_) if dir == "/" => "/".to_string(),
      Src::Path(_) => format!("{dir}/"),
      _ => "/base/".into(),
    };
    job.files = Some(std::mem::take(&mut g.files).into_iter().map(|(k, v)| (format!("{root}{k}"), v)).collect());
    job.base_dir = Some(root.clone());
    job.src = src;
    cx.eval();
    match conv::run(&job) {
      Run::Panic { msg, loc } => cx.fail(format!("panic {loc}"), msg, job.describe()),
      Run::Done(d) => {
        if let Some(w) = d.diags.first() {
          cx.fail(format!("diagnostic: {}", w.message), format!("{w:?}"), job.describe());
          return;
        }
        let h = d.html.unwrap_or_default();
        match html::parse(&h) {
          Err(m) => cx.fail("malformed html", format!("{m}\n{h}"), job.describe()),
          Ok(n) => {
            let fold = |s: &str| s.split(' ').filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" ");
            let got: Vec<String> = html::find_all(&n, &|e| e.tag == "p").iter().map(|e| fold(&e.text())).collect();
            let want: Vec<String> = want.iter().map(|s| fold(s)).collect();
            if got != want {
              let i = (0..want.len().max(got.len())).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
              cx.fail("text differs", format!("paragraph {i}: expected {:?}\n got {:?}", want.get(i), got.get(i)), job.describe());
            }
          }
        }
      }
    }
    cx.sample(|| json!(job.src));
  }
}
