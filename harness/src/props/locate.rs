//! C25: diagnostics name the place they are about.

use serde_json::json;

use crate::conv::{self, Diag, Job, Run};
use crate::orch::*;
use std::collections::BTreeMap;

use crate::props::preproc::{any_doc, comment_state, file_job, Splicer};
use crate::rng::Rng;
use crate::wild;

pub struct Locate;

/// some of the lines moved to files
fn cut(r: &mut Rng, src: String) -> Job {
  let mut lines: Vec<String> = src.split('\n').map(str::to_string).collect();
  let mut files = BTreeMap::new();
  for n in 0..r.range(1, 3) {
    let a = r.below(lines.len());
    let b = r.range(a + 1, lines.len() + 1).min(lines.len());
    let moved: Vec<String> = lines.splice(a..b, [String::new()]).collect();
    let (sel, text) = match r.below(5) {
      0 => ("lines=2..-1".to_string(), format!("not this <<nope>>\n{}", moved.join("\n"))),
      1 => ("tag=t".to_string(), format!("not this <<nope>>\n// tag::t[]\n{}\n// end::t[]\nnor this {{nope}}", moved.join("\n"))),
      2 => (format!("lines=1..{}", r.range(1, 5)), moved.join("\n")),
      _ => (String::new(), moved.join("\n")),
    };
    let name = format!("f{n}.{}", if r.chance(1, 2) { "adoc" } else { "rb" });
    lines[a] = format!("{}include::{name}[{sel}]", if r.chance(1, 12) { "|===\na|" } else { "" });
    files.insert(format!("/docs/{name}"), text.into_bytes());
  }
  file_job(lines.join("\n"), files)
}

/// what any diagnostic must satisfy, given the sources
fn sane(d: &Diag, job: &Job) -> Option<(&'static str, String)> {
  let text = |f: &str| -> Option<Vec<u8>> {
    let files = job.files.as_ref();
    files.and_then(|fs| fs.iter().find(|(k, _)| k.as_str() == f || k.ends_with(&format!("/{f}"))).map(|(_, v)| v.clone()))
  };
  let main = matches!(d.file.as_str(), "main.adoc" | "<temp-buffer>" | "<stdin>") || job.files.as_ref().is_none_or(|f| f.is_empty());
  let src = if main { job.src.clone().into_bytes() } else {
    match text(&d.file) {
      Some(t) => t,
      None => return Some(("file", format!("no file {:?}", d.file))),
    }
  };
  let Some(src) = String::from_utf8(src).ok().filter(|s| !s.contains('\0')) else { return None };
  let src = src.strip_prefix('\u{feff}').unwrap_or(&src).to_string();
  let lines: Vec<&str> = src.split('\n').collect();
  // the end of an included file, whose last line is always terminated
  if !main && d.line_num as usize == lines.len() + 1 && d.line.is_empty() {
    return None;
  }
  if d.line_num == 0 || d.line_num as usize > lines.len() {
    return Some(("line number", format!("line {} of {}", d.line_num, lines.len())));
  }
  let want = lines[d.line_num as usize - 1];
  // in table cells, the text of the cell
  // in cells of csv tables, without their quotes
  let unquoted = |s: &str| s.replace('"', "");
  if d.line.trim_end() != want.trim_end()
    && !(want.contains(['|', '!', ',', ':', '\t']) && want.contains(&d.line))
    && !(want.contains('"') && unquoted(want).contains(&unquoted(&d.line)))
  {
    return Some(("line text", format!("line {} is {:?}, reported {:?}", d.line_num, want, d.line)));
  }
  let (a, b) = (d.start as usize, (d.start + d.width) as usize);
  if a > d.line.len() || b > d.line.len().max(a + 1) {
    return Some(("underline outside of the line", format!("{a}..{b} in {:?}", d.line)));
  }
  if !d.line.is_char_boundary(a) || (b < d.line.len() && !d.line.is_char_boundary(b)) {
    return Some(("underline within a character", format!("{a}..{b} in {:?}", d.line)));
  }
  None
}

impl Prop for Locate {
  fn id(&self) -> &'static str {
    "C25"
  }
  fn rule(&self) -> &'static str {
    "diagnostics name an existing line of the right file, with its text, and underline a part of it; one planted problem in a clean document, whole or cut into files, gives one diagnostic at its place"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 60_000,
      Tier::Thorough => 2_000_000,
    }
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    if r.chance(1, 2) {
      return Planted::run(cx);
    }
    let mut job = Job::new(wild::wild(&mut r));
    if r.chance(1, 3) {
      job = cut(&mut r, job.src);
    }
    let all = job.files.iter().flatten().fold(job.src.clone(), |s, f| s + &String::from_utf8_lossy(f.1));
    if all.replace("\r\n", "").contains(['\r', '\u{b}', '\u{c}']) {
      return;
    }
    cx.eval();
    let Run::Done(d) = conv::run(&job) else { return };
    cx.add("diagnostics", d.diags.len() as u64);
    if !d.diags.is_empty() {
      cx.nontrivial(&job.src);
    }
    for g in &d.diags {
      if let Some((sig, msg)) = sane(g, &job) {
        cx.fail(format!("{sig}: {}", g.message.chars().filter(|c| !c.is_ascii_digit()).take(24).collect::<String>()), format!("{}: {msg}", g.message), job.describe());
      }
    }
    cx.sample(|| json!(job.src));
  }
}

// ------------------------------------------------------------------ planted problems

/// a problem, its message, and the text it is in
struct Problem {
  what: &'static str,
  before: String,
  text: String,
  message: &'static str,
  own_line: bool,
  underlined: Option<String>,
}

fn problem(r: &mut Rng, m: &str) -> Problem {
  let p = |what, text: String, message, own_line, underlined: Option<String>| Problem { what, before: String::new(), text, message, own_line, underlined };
  match r.below(12) {
    8 => p("callout", format!("> {m}"), "No callout found for number `", true, None),
    9 => p("index term", format!("{m} (((a,b,c,d)))"), "too many terms in concealed indexterm", false, None),
    10 => p("block anchor", format!("[[1{m}]]"), "Invalid block anchor", true, None),
    0 | 1 => p("missing anchor", format!("<<no{m}>>"), "Invalid cross reference, no anchor found for", false, Some(format!("no{m}"))),
    2 | 3 => p("missing attribute", format!("{{no{m}}}"), "Skipping reference to missing attribute", false, Some(format!("no{m}"))),
    4 => p("empty footnote", format!("{m} footnote:[]"), "Empty footnote content", false, None),
    5 => {
      let mut p = p("anchor twice", format!("[[du{m}]]text"), "Duplicate anchor id", false, Some(format!("du{m}")));
      p.before = format!("first [[du{m}]]text");
      p.text = format!("[[du{m}]]second");
      p
    }
    6 => p("missing file", format!("include::no{m}.adoc[]"), "Include error", true, Some(format!("no{m}.adoc"))),
    7 => p("endif alone", format!("endif::{m}[]"), "This endif directive has no previous ifdef/ifndef", true, None),
    _ => p("condition", format!("ifeval::[{m}]"), "Invalid ifeval directive expression", true, None),
  }
}

fn carrier(r: &mut Rng, p: &Problem) -> (&'static str, Vec<String>) {
  let t = &p.text;
  let l = |s: &str| s.replace('@', t).split('\n').map(str::to_string).collect::<Vec<_>>();
  if p.what == "block anchor" {
    return match r.below(3) {
      0 => ("before paragraph", l("@\naa")),
      1 => ("before block", l("@\n----\naa\n----")),
      _ => ("in example", l("====\naa\n\n@\nbb\n====")),
    };
  }
  if p.what == "callout" {
    return match r.below(2) {
      0 => ("list of callouts", l("----\naa <1>\n----\n<1> bb\n<2@")),
      _ => ("nested", l("====\n----\naa <1>\nbb <2>\n----\n<1> bb\n<2> cc\n<3@\n====")),
    };
  }
  if p.own_line {
    return match r.below(6) {
      0 => ("alone", l("@")),
      1 => ("in paragraph", l("aa bb\n@\ncc dd")),
      2 => ("in listing", l("----\naa\n@\nbb\n----")),
      3 => ("in example", l("====\naa\n\n@\n\nbb\n====")),
      4 => ("in list", l("* aa\n@\n* bb")),
      _ => ("in table", l("|===\n|aa\n@\n|bb\n|===")),
    };
  }
  match r.below(15) {
    0 => ("paragraph", l("aa @ bb")),
    1 => ("first line", l("@ bb\ncc dd")),
    2 => ("later line", l("aa bb\ncc _dd_ @\nee")),
    3 => ("list", l("* aa\n* bb @\n* cc")),
    4 => ("nested list", l("* aa\n** bb\ncc @\n. dd")),
    5 => ("description", l("aa:: bb @ cc")),
    6 => ("admonition", l("NOTE: aa @")),
    7 => ("example", l("====\naa\n\nbb @\n====")),
    8 => ("quote", l("[quote,who]\n____\naa\n\nbb\ncc @\n____")),
    9 => ("block title", l(".Aa @\nbb")),
    10 => ("cell", l("|===\n|aa |bb\n\n|cc |dd @\n|===")),
    11 => ("AsciiDoc cell", l("[cols=1a]\n|===\n|aa\n\n|bb\n\n* cc\n\ndd\nee @\n|===")),
    12 => ("formatted", l("aa _bb @ cc_ *dd*")),
    13 => ("attached", l("* aa\n+\nbb\ncc @\n+\n----\ndd\n----")),
    _ => ("verse", l("[verse]\naa\nbb @")),
  }
}

struct Planted;

impl Planted {
  fn check(cx: &mut Cx, what: &str, run: &Run, job: &Job, p: &Problem, carrier: &str, place: &[(String, usize)]) {
    cx.eval();
    let Run::Done(d) = run else { return };
    let sig = |s: &str| format!("{what} {s}: {} / {carrier}", p.what);
    if d.diags.len() != 1 {
      let m: Vec<_> = d.diags.iter().map(|d| format!("{}:{} {}", d.file, d.line_num, d.message)).collect();
      return cx.fail(sig(if d.diags.is_empty() { "not reported" } else { "reported more than once" }), format!("{m:?}"), job.describe());
    }
    let g = &d.diags[0];
    if !g.message.starts_with(p.message) {
      return cx.fail(sig("message"), g.message.clone(), job.describe());
    }
    if !place.iter().any(|(f, l)| *f == g.file && *l == g.line_num as usize) {
      return cx.fail(sig("place"), format!("reported {}:{} {:?}, is at {place:?}", g.file, g.line_num, g.line), job.describe());
    }
    if let Some(u) = &p.underlined {
      let at = g.line.get(g.start as usize..(g.start + g.width) as usize).unwrap_or("");
      if !at.contains(u.as_str()) && !(u.contains(at) && !at.is_empty()) {
        return cx.fail(sig("underline"), format!("{at:?} in {:?}", g.line), job.describe());
      }
    }
    cx.count("located");
  }
}

/// the lines with the text, in all files
fn places(job: &Job, text: &str) -> Option<Vec<(String, usize)>> {
  let mut v = vec![];
  let mut scan = |f: &str, s: &str| v.extend(s.split('\n').enumerate().filter(|(_, l)| l.contains(text)).map(|(i, _)| (f.to_string(), i + 1)));
  scan("main.adoc", &job.src);
  for (f, b) in job.files.iter().flatten() {
    scan(f.rsplit('/').next().unwrap(), std::str::from_utf8(b).ok().filter(|s| !s.contains('\0'))?);
  }
  Some(v)
}

impl Planted {
  fn run(cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let Some((_, src)) = any_doc(&mut r, 2) else { return };
    let clean = file_job(src.clone(), BTreeMap::new()).attr("letter", "f");
    let Run::Done(d) = conv::run(&clean) else { return };
    if !d.diags.is_empty() {
      return cx.count("document not clean");
    }
    let m = format!("qz{}", r.range(1000, 9999));
    let p = problem(&mut r, &m);
    let (how, lines) = carrier(&mut r, &p);
    let all: Vec<&str> = src.split('\n').collect();
    let mut at: Vec<usize> = (1..all.len()).filter(|i| all[i - 1].is_empty() && all[*i].starts_with("== ")).collect();
    at.push(all.len());
    let at = *r.pick(&at);
    let with = |ls: &[String]| {
      let mut v: Vec<&str> = all[..at].to_vec();
      v.push("");
      if !p.before.is_empty() {
        v.extend([p.before.as_str(), ""]);
      }
      v.extend(ls.iter().map(String::as_str));
      v.push("");
      v.extend(&all[at..]);
      v.join("\n")
    };
    // whether the place is one where blocks go
    let probe = Job { src: with(&[format!("{m} probe")]), ..clean.clone() };
    let Run::Done(d) = conv::run(&probe) else { return };
    if !d.diags.is_empty() || !d.html.is_some_and(|h| h.contains(&format!("<div class=\"paragraph\">\n<p>{m} probe</p>")) || h.contains(&format!("<div class=\"paragraph\"><p>{m} probe</p>"))) {
      return cx.count("no block goes there");
    }
    let mut base = Job { src: with(&lines), ..clean.clone() };
    if p.what == "missing attribute" {
      base = base.attr("attribute-missing", "warn");
      let Run::Done(d) = conv::run(&Job { src: src.clone(), ..base.clone() }) else { return };
      if !d.diags.is_empty() {
        return cx.count("document has missing attributes");
      }
    }
    cx.count(p.what);
    cx.count(how);
    cx.nontrivial(&base.src);
    let place = places(&base, &p.text).unwrap();
    Planted::check(cx, "whole", &conv::run(&base), &base, &p, how, &place);
    let src2 = base.src.clone();
    let cs = comment_state(&src2);
    let mut sp = Splicer { r: &mut r, files: BTreeMap::new(), n: 0, levels: false, shifts: 0 };
    let main = sp.split(&cs, 0, "/docs");
    let files = std::mem::take(&mut sp.files);
    if files.is_empty() {
      return;
    }
    let cut = Job { src: main, files: Some(files), ..base.clone() };
    if let Some(place) = places(&cut, &p.text) {
      cx.count("in files");
      Planted::check(cx, "cut", &conv::run(&cut), &cut, &p, how, &place);
    }
    cx.sample(|| json!(base.src));
  }
}
