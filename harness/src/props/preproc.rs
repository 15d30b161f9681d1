//! The preprocessor: includes, conditionals, comments, line endings. Most are
//! metamorphic: a generated document whose conversion is known is rewritten in a
//! way that must not change the result.

use std::collections::BTreeMap;

use asciidork_core::SafeMode;
use serde_json::json;

use crate::conv::{self, Diag, Job, Run, Src};
use crate::gen_::*;
use crate::model::*;
use crate::orch::*;
use crate::rng::Rng;
use crate::wild;

/// HTML and diagnostics of two runs must agree; reports the first difference.
pub fn same(cx: &mut Cx, what: &str, base: &Run, got: &Run, job: &Job, base_job: &Job) -> bool {
  cx.eval();
  let show = |j: &Job| {
    let mut d = j.describe();
    d["original"] = json!(base_job.src);
    d
  };
  match (base, got) {
    (Run::Panic { .. }, Run::Panic { .. }) => true,
    (_, Run::Panic { msg, loc }) => {
      cx.fail(format!("{what}: panic {loc}"), format!("{loc}: {msg}"), show(job));
      false
    }
    (Run::Panic { msg, loc }, _) => {
      cx.fail(format!("{what}: panic {loc} in the original only"), format!("{loc}: {msg}"), show(job));
      false
    }
    (Run::Done(a), Run::Done(b)) => {
      if a.html.is_some() != b.html.is_some() {
        cx.fail(
          format!("{what}: acceptance differs"),
          format!("original accepted={} changed accepted={} {:?} {:?}", a.html.is_some(), b.html.is_some(), a.diags.first(), b.diags.first()),
          show(job),
        );
        return false;
      }
      if a.html != b.html {
        let (x, y) = (a.html.as_deref().unwrap(), b.html.as_deref().unwrap());
        cx.fail(format!("{what}: output differs"), first_diff(x, y), show(job));
        return false;
      }
      let m = |d: &[Diag]| d.iter().map(|d| d.message.clone()).collect::<Vec<_>>();
      if m(&a.diags) != m(&b.diags) {
        cx.fail(format!("{what}: diagnostics differ"), format!("original {:?} changed {:?}", m(&a.diags), m(&b.diags)), show(job));
        return false;
      }
      true
    }
  }
}

pub fn first_diff(x: &str, y: &str) -> String {
  let n = x.bytes().zip(y.bytes()).take_while(|(a, b)| a == b).count();
  let cut = |s: &str| {
    let mut a = n.saturating_sub(80).min(s.len());
    while !s.is_char_boundary(a) {
      a -= 1;
    }
    let mut b = (n + 160).min(s.len());
    while !s.is_char_boundary(b) {
      b -= 1;
    }
    s[a..b.max(a)].to_string()
  };
  format!("first difference at byte {n}:\n original …{}\n changed  …{}", cut(x), cut(y))
}

pub fn any_doc(r: &mut Rng, depth: usize) -> Option<(Doc, String)> {
  let mut c = Cfg::all();
  c.max_depth = depth;
  c.max_blocks = r.range(2, 6);
  let mut g = Gen::new(r, c);
  let d = g.doc();
  let s = src_doc(&d);
  footnotes_ordered(&s).then_some((d, s))
}

fn tiered(t: Tier, q: u64, th: u64) -> u64 {
  if t == Tier::Quick { q } else { th }
}

// ------------------------------------------------------------------ C22 splice

pub struct Splice;

pub struct Splicer<'a> {
  pub r: &'a mut Rng,
  pub files: BTreeMap<String, Vec<u8>>,
  pub n: usize,
  /// whether headings may move, and how often they did
  pub levels: bool,
  pub shifts: u64,
}

impl Splicer<'_> {
  /// moves random line ranges of `lines` into files; returns the remaining text
  pub fn split(&mut self, lines: &[(&str, bool)], depth: usize, dir: &str) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < lines.len() {
      if depth < 4 && !lines[i].1 && self.r.chance(1, 6) {
        let n = self.r.range(0, (lines.len() - i).min(12));
        out.push_str(&self.moved(&lines[i..i + n], depth, dir));
        i += n;
        if n == 0 {
          out.push_str(lines[i].0);
          out.push('\n');
          i += 1;
        }
      } else {
        out.push_str(lines[i].0);
        out.push('\n');
        i += 1;
      }
    }
    out
  }

  /// the offset of an include for which its headings can be rewritten
  fn shift_for(&mut self, lines: &[(&str, bool)]) -> i8 {
    let plain = |l: &str| !l.starts_with('#') && !["----", "....", "++++", "////", "|===", "!===", ",===", ":===", "```", "[source", "[listing", "[literal", "[pass", "[stem", "leveloffset"].iter().any(|d| l.contains(d));
    if !lines.iter().all(|(l, c)| plain(l) && !c) {
      return 0;
    }
    let levels: Vec<i8> = lines.iter().filter_map(|(l, _)| heading(l)).collect();
    let (Some(lo), Some(hi)) = (levels.iter().min(), levels.iter().max()) else { return 0 };
    // written levels from 0 (`=`) to 5
    let least = hi - 5;
    if *lo < 1 {
      return 0;
    }
    self.r.range(0, (lo - least) as usize) as i8 + least
  }

  fn moved(&mut self, lines: &[(&str, bool)], depth: usize, dir: &str) -> String {
    self.n += 1;
    let ext = self.r.pick_s(&["adoc", "txt", "asciidoc", "rb", "inc"]);
    let sub = if self.r.chance(1, 3) { self.r.pick_s(&["sub/", "sub/deep/", "a b/"]) } else { "" };
    let name = format!("{sub}f{}.{ext}", self.n);
    let path = format!("{dir}/{name}");
    let inner_dir = path.rsplit_once('/').unwrap().0.to_string();
    // relative targets resolve against the including file
    let adoc = ["adoc", "txt", "asciidoc"].contains(&ext);
    // headings may be written with other levels, which the include shifts back
    let shift = if self.levels && self.r.chance(1, 3) { self.shift_for(lines) } else { 0 };
    let moved: Vec<(String, bool)> = lines.iter().map(|(l, c)| (reheaded(l, shift), *c)).collect();
    let moved: Vec<(&str, bool)> = moved.iter().map(|(l, c)| (l.as_str(), *c)).collect();
    let lines = &moved[..];
    // directives are for AsciiDoc files
    let mut body = self.split(lines, if adoc { depth + 1 } else { 9 }, &inner_dir);
    let blank = body.trim().is_empty();
    let mut opts: Vec<String> = vec![];
    match self.r.below(6) {
      0 => {
        // numbered lines out of a longer file
        let before = self.r.range(0, 3);
        let after = self.r.range(0, 3);
        let total = body.lines().count();
        if total > 0 {
          let mut t = String::new();
          for i in 0..before {
            t.push_str(&format!("NOISE before {i}\n"));
          }
          t.push_str(&body);
          for i in 0..after {
            t.push_str(&format!("NOISE after {i}\n"));
          }
          body = t;
          let (a, b) = (before + 1, before + total);
          opts.push(if after == 0 && self.r.chance(1, 2) {
            format!("lines={a}..")
          } else if after == 0 && self.r.chance(1, 2) {
            format!("lines={a}..-1")
          } else if total > 1 && self.r.chance(1, 2) {
            let m = self.r.range(a, b - 1);
            match self.r.below(3) {
              0 => format!("lines={a}..{m};{}..{b}", m + 1),
              1 => format!("lines=\"{a}..{m},{}..{b}\"", m + 1),
              _ => format!("lines={a}..{m};{b};{}..{b}", m + 1),
            }
          } else if total == 1 {
            format!("lines={a}")
          } else {
            format!("lines={a}..{b}")
          });
        }
      }
      1 if !blank => {
        let c = self.r.pick_s(&["//", "#", "--", ";", "<!--"]);
        let tag = self.r.pick_s(&["x", "snip", "a-b", "t_1"]);
        let mut t = String::new();
        if self.r.chance(1, 2) {
          t.push_str("NOISE\n\n");
        }
        t.push_str(&format!("{c} tag::{tag}[]\n{body}{c} end::{tag}[]\n"));
        if self.r.chance(1, 2) {
          t.push_str(&format!("NOISE\n{c} tag::other[]\nNOISE\n{c} end::other[]\n"));
        }
        body = t;
        opts.push(if self.r.chance(1, 2) { format!("tag={tag}") } else { format!("tags={tag}") });
      }
      2 if !blank => {
        // everything but the tag lines
        let c = "//";
        let mut t = String::new();
        for (i, l) in body.lines().enumerate() {
          if i % 3 == 1 {
            t.push_str(&format!("{c} tag::k{i}[]\n{l}\n{c} end::k{i}[]\n"));
          } else {
            t.push_str(l);
            t.push('\n');
          }
        }
        body = t;
        opts.push("tags=**".into());
      }
      _ => {}
    }
    if self.r.chance(1, 8) {
      opts.push("opts=optional".into());
    }
    match shift {
      0 if self.r.chance(1, 10) => opts.push(if self.r.chance(1, 2) { "leveloffset=+0".into() } else { "leveloffset=-0".into() }),
      0 => {}
      n => {
        self.shifts += 1;
        opts.push(format!("leveloffset={n:+}"));
      }
    }
    let mut bytes = body.into_bytes();
    if bytes.last() == Some(&b'\n') && bytes.len() > 1 && bytes[bytes.len() - 2] != b'\n' && self.r.chance(1, 3) {
      bytes.pop();
    }
    if self.r.chance(1, 6) {
      let mut b = vec![0xEF, 0xBB, 0xBF];
      b.extend(bytes);
      bytes = b;
    } else if self.r.chance(1, 6) {
      let s = String::from_utf8(bytes.clone()).unwrap();
      let be = self.r.chance(1, 2);
      let named = !be && self.r.chance(1, 2);
      if named {
        opts.push(format!("encoding={}", self.r.pick(&["utf-16", "UTF-16", "utf16"])));
      }
      let mut b: Vec<u8> = match be {
        true => vec![0xFE, 0xFF],
        false if named && self.r.chance(1, 2) => vec![],
        false => vec![0xFF, 0xFE],
      };
      for u in s.encode_utf16() {
        b.extend(if be { u.to_be_bytes() } else { u.to_le_bytes() });
      }
      bytes = b;
    } else if self.r.chance(1, 6) {
      bytes = String::from_utf8(bytes).unwrap().replace('\n', "\r\n").into_bytes();
      if !["adoc", "txt", "asciidoc"].contains(&ext) {
        bytes.retain(|b| *b != b'\r');
      }
    }
    self.files.insert(path.clone(), bytes);
    let target = if self.r.chance(1, 8) { path } else { name };
    let target = if self.r.chance(1, 6) { target.replacen('f', "{letter}", 1) } else { target };
    format!("include::{target}[{}]\n", opts.join(","))
  }
}

/// number of a heading's equals signs, less one
fn heading(line: &str) -> Option<i8> {
  let n = line.bytes().take_while(|b| *b == b'=').count();
  (n > 0 && n < 7 && line[n..].starts_with(' ') && line[n..].trim() != "").then_some(n as i8 - 1)
}

fn reheaded(line: &str, shift: i8) -> String {
  match heading(line) {
    Some(n) if shift != 0 => format!("{}{}", "=".repeat((n - shift + 1) as usize), &line[n as usize + 1..]),
    _ => line.to_string(),
  }
}

/// each line, and whether it is the rest of a comment block (where no directive works)
pub fn comment_state(src: &str) -> Vec<(&str, bool)> {
  let mut open: Option<&str> = None;
  src
    .lines()
    .map(|l| {
      let inside = open == Some("////");
      match open {
        Some(d) if d == l => open = None,
        None if ["////", "----", "....", "++++"].contains(&l) => open = Some(l),
        _ => {}
      }
      (l, inside)
    })
    .collect()
}

pub fn file_job(src: impl Into<String>, files: BTreeMap<String, Vec<u8>>) -> Job {
  let mut j = Job::new(src).at(Src::Path("/docs/main.adoc".into())).safe(SafeMode::Safe).files(files);
  j.base_dir = Some("/docs".into());
  j
}

impl Prop for Splice {
  fn id(&self) -> &'static str {
    "C22"
  }
  fn rule(&self) -> &'static str {
    "generated documents cut at arbitrary lines into nested include files (whole, by line ranges, by tags, in other encodings); output must equal the uncut document's"
  }
  fn cases(&self, t: Tier) -> u64 {
    tiered(t, 40_000, 1_200_000)
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let depth = r.range(1, 3);
    let Some((_, src)) = any_doc(&mut r, depth) else { return };
    // a job attribute, since not all of the document's may be defined yet
    let base_job = file_job(src.clone(), BTreeMap::new()).attr("letter", "f");
    let lines = comment_state(&src);
    let mut sp = Splicer { r: &mut r, files: BTreeMap::new(), n: 0, levels: !["|===", "!===", ",===", ":==="].iter().any(|d| src.contains(d)), shifts: 0 };
    let main = sp.split(&lines, 0, "/docs");
    let files = std::mem::take(&mut sp.files);
    cx.add("level offsets", sp.shifts);
    if files.is_empty() {
      return;
    }
    cx.add("files", files.len() as u64);
    cx.nontrivial(&main);
    let job = file_job(main, files).attr("letter", "f");
    let a = conv::run(&base_job);
    let b = conv::run(&job);
    if let Run::Done(d) = &b {
      cx.add("resolved", d.resolved.len() as u64);
    }
    same(cx, "include", &a, &b, &job, &base_job);
    cx.sample(|| json!({"main": job.src, "files": job.files.as_ref().map(|f| f.len())}));
  }
}

// ------------------------------------------------------------------ C24 conditionals

pub struct Conditionals;

/// attributes conditions may talk about: name -> value (None: not set)
const CATTRS: [(&str, Option<&str>); 7] = [
  ("ca", Some("")),
  ("cb", Some("5")),
  ("cc", Some("1.5")),
  ("cd", Some("word")),
  ("ce", Some("true")),
  ("cx", None),
  ("cy", None),
];

fn cval(n: &str) -> Option<&'static str> {
  CATTRS.iter().find(|(k, _)| *k == n).unwrap().1
}

/// an `ifdef`/`ifndef`/`ifeval` line with the wanted truth; the matching endif
fn condition(r: &mut Rng, want: bool) -> (String, String) {
  loop {
    let (open, end, val) = match r.below(3) {
      0 | 1 => {
        let neg = r.chance(1, 2);
        let names: Vec<&str> = (0..r.range(1, 3)).map(|_| r.pick(&CATTRS).0).collect();
        let all = r.chance(1, 2);
        let t = names.join(if all { "+" } else { "," });
        let set = |n: &&str| cval(n).is_some();
        let v = if all { names.iter().all(set) } else { names.iter().any(set) };
        if neg && all && names.iter().any(set) != names.iter().all(set) {
          // judged by `mixed_ifndef()`
          continue;
        }
        (format!("if{}def::{t}[]", if neg { "n" } else { "" }), if r.chance(1, 2) { format!("endif::{t}[]") } else { "endif::[]".into() }, v != neg)
      }
      _ => {
        let op = r.pick_s(&["==", "!=", "<", "<=", ">", ">="]);
        let (l, rt, ord) = match r.below(4) {
          0 => {
            let (a, b) = (r.range(0, 12), r.range(0, 12));
            (a.to_string(), b.to_string(), a.cmp(&b))
          }
          1 => {
            let b = r.range(0, 12);
            ("{cb}".to_string(), b.to_string(), 5.cmp(&b))
          }
          2 => {
            let b = r.range(0, 30) as f32 / 4.0;
            let (l, a) = if r.chance(1, 2) { ("{cc}", 1.5f32) } else { ("2.25", 2.25) };
            (l.to_string(), format!("{b:?}"), a.partial_cmp(&b).unwrap())
          }
          _ => {
            let (l, a) = *r.pick(&[("\"{cd}\"", "word"), ("'{cd}'", "word"), ("\"abc\"", "abc"), ("\"{ce}\"", "true"), ("\"a b\"", "a b"), ("\"{cd} x\"", "word x")]);
            let (rr, b) = *r.pick(&[("\"word\"", "word"), ("'abc'", "abc"), ("\"zz\"", "zz"), ("\"{cd}\"", "word"), ("\"a b\"", "a b"), ("\"\"", ""), ("\"word x\"", "word x")]);
            (l.to_string(), rr.to_string(), a.cmp(b))
          }
        };
        use std::cmp::Ordering::*;
        let v = match op {
          "==" => ord == Equal,
          "!=" => ord != Equal,
          "<" => ord == Less,
          "<=" => ord != Greater,
          ">" => ord == Greater,
          _ => ord != Less,
        };
        let sp = r.pick_s(&[" ", "", "  "]);
        (format!("ifeval::[{l}{sp}{op}{sp}{rt}]"), "endif::[]".into(), v)
      }
    };
    if val == want {
      return (open, end);
    }
  }
}

/// `ifndef::a+b[]` keeps its lines unless all the attributes are set
fn mixed_ifndef(cx: &mut Cx) {
  for (names, shown) in [("ca+cx", true), ("cx+ca", true), ("ca+cb", false), ("cx+cy", true)] {
    let job = Job::new(format!("ifndef::{names}[]\nlines\nendif::[]\n")).attr("ca", "").attr("cb", "1");
    cx.eval();
    if let conv::Run::Done(d) = conv::run(&job) {
      if d.html.unwrap_or_default().contains("lines") != shown {
        cx.fail("conditional: ifndef of attributes joined by + of which some are set", format!("ifndef::{names}[] shown={}", !shown), job.describe());
      }
    }
  }
}

fn wrap(r: &mut Rng, lines: &[(&str, bool)], depth: usize, junk: &[String], n: &mut u64) -> Vec<String> {
  let mut out = vec![];
  let mut i = 0;
  while i < lines.len() {
    match if lines[i].1 { 13 } else { r.below(14) } {
      0 if depth < 3 => {
        let mut k = r.range(0, (lines.len() - i).min(8));
        while k > 0 && lines.get(i + k).is_some_and(|l| l.1) {
          k -= 1;
        }
        let (o, e) = condition(r, true);
        out.push(o);
        out.extend(wrap(r, &lines[i..i + k], depth + 1, junk, n));
        out.push(e);
        *n += 1;
        i += k;
      }
      1 => {
        let (o, e) = condition(r, false);
        out.push(o);
        let k = r.below(6);
        for _ in 0..k {
          if r.chance(1, 8) {
            let want = r.chance(1, 2);
            let (o, e) = condition(r, want);
            out.push(o);
            if r.chance(2, 3) {
              out.push(r.pick(junk).clone());
            }
            out.push(e);
          } else if r.chance(1, 8) {
            out.push(format!("ifdef::{}[inner text]", r.pick(&CATTRS).0));
          } else {
            out.push(r.pick(junk).clone());
          }
        }
        out.push(e);
        *n += 1;
      }
      2 if r.chance(1, 2) => {
        let on = r.chance(1, 2);
        let (mut o, _) = condition(r, on);
        while o.starts_with("ifeval") {
          o = condition(r, on).0;
        }
        let body = if on { lines[i].0.to_string() } else { r.pick(junk).clone() };
        if !body.is_empty() && !body.starts_with("if") && !body.starts_with(' ') {
          out.push(format!("{}{}]", &o[..o.len() - 1], body));
          *n += 1;
          if on {
            i += 1;
          }
        }
      }
      _ => {
        out.push(lines[i].0.to_string());
        i += 1;
      }
    }
  }
  out
}

impl Prop for Conditionals {
  fn id(&self) -> &'static str {
    "C24"
  }
  fn rule(&self) -> &'static str {
    "generated documents with conditional directives of known truth wrapped around arbitrary lines (true) or around inserted foreign lines (false), nested; output must equal the document's without them"
  }
  fn cases(&self, t: Tier) -> u64 {
    tiered(t, 40_000, 1_200_000)
  }
  fn run(&self, cx: &mut Cx) {
    if cx.index == 0 {
      mixed_ifndef(cx);
    }
    let mut r = cx.rng.clone();
    let depth = r.range(1, 3);
    let Some((mut d, _)) = any_doc(&mut r, depth) else { return };
    let api = r.chance(1, 2);
    if !api {
      for (k, v) in CATTRS {
        if let Some(v) = v {
          d.attrs.push((k.into(), v.into()));
        }
      }
    }
    let src = src_doc(&d);
    let Some((_, junk)) = any_doc(&mut r, 2) else { return };
    let mut junk: Vec<String> = junk.lines().map(str::to_string).collect();
    junk.push("++++".into());
    junk.push("----".into());
    junk.push("ordinary ifdef::x[ text".into());
    junk.push("[".into());
    junk.push(":cx: set".into());
    // the header's attribute entries come first: conditions need them set
    let head = if api { 0 } else { src.lines().take_while(|l| !l.is_empty()).count() };
    let lines = comment_state(&src);
    let mut n = 0;
    let mut out: Vec<String> = lines[..head].iter().map(|s| s.0.to_string()).collect();
    out.extend(wrap(&mut r, &lines[head..], 0, &junk, &mut n));
    if n == 0 {
      return;
    }
    cx.add("conditions", n);
    let strict = r.chance(1, 3);
    let mk = |s: String| {
      let mut j = Job::new(s);
      j.strict = strict;
      if api {
        for (k, v) in CATTRS {
          if let Some(v) = v {
            j = j.attr(k, v);
          }
        }
      }
      j
    };
    let base_job = mk(src.clone());
    let job = mk(out.join("\n") + "\n");
    cx.nontrivial(&job.src);
    let a = conv::run(&base_job);
    let b = conv::run(&job);
    same(cx, "conditional", &a, &b, &job, &base_job);
    cx.sample(|| json!(job.src));
  }
}

// ------------------------------------------------------------------ C21 line endings

pub struct LineEndings;

impl Prop for LineEndings {
  fn id(&self) -> &'static str {
    "C21"
  }
  fn rule(&self) -> &'static str {
    "generated and wild documents rewritten with CRLF line ends, byte-order mark, missing or extra final line ends; output and diagnostics must not change"
  }
  fn cases(&self, t: Tier) -> u64 {
    tiered(t, 60_000, 2_000_000)
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let (src, model) = if r.chance(1, 2) {
      let Some((_, s)) = any_doc(&mut r, 2) else { return };
      (s, true)
    } else {
      (wild::wild(&mut r), false)
    };
    // NB: wrapped attribute entries have line ends which aren't
    let src: String = src.replace(['\r', '\u{feff}'], "").replace("\\\n", "\n");
    let mut job = Job::new(src.clone());
    if !model {
      job.strict = r.chance(1, 4);
      job.be = if r.chance(1, 3) { conv::Be::H5 } else { conv::Be::Dr };
    }
    cx.nontrivial(&src);
    let a = conv::run(&job);
    let mut variants: Vec<(&str, String)> = vec![("crlf", src.replace('\n', "\r\n")), ("bom", format!("\u{feff}{src}"))];
    let trimmed = src.trim_end_matches('\n');
    if trimmed.ends_with('\\') {
      return;
    }
    // NB: blanks ending the source (rather than a line of it) are kept
    if src.len() == trimmed.len() && trimmed.ends_with([' ', '\t']) {
      return;
    }
    if !trimmed.ends_with([' ', '\t']) {
      variants.push(("no final newline", trimmed.to_string()));
    }
    variants.push(("extra final newlines", format!("{trimmed}\n\n\n")));
    // mixed
    let mut mixed = String::new();
    for l in src.split_inclusive('\n') {
      match l.strip_suffix('\n') {
        Some(b) if r.chance(1, 2) => {
          mixed.push_str(b);
          mixed.push_str("\r\n");
        }
        _ => mixed.push_str(l),
      }
    }
    variants.push(("mixed", mixed));
    if model {
      let mut t = String::new();
      for l in src.lines() {
        t.push_str(l);
        if r.chance(1, 4) {
          t.push_str(r.pick_s(&[" ", "  ", "\t"]));
        }
        t.push('\n');
      }
      variants.push(("trailing blanks", t));
    }
    for (w, v) in variants {
      let j = Job { src: v, ..job.clone() };
      let b = conv::run(&j);
      cx.count(w);
      same(cx, w, &a, &b, &j, &job);
    }
    cx.sample(|| json!(src));
  }
}
