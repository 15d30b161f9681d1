//! C29: the front ends deliver exactly what the library converts.
//! C23: includes and other file reads stay within what the safe mode permits.

use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use asciidork_core::{AttrValue, DocType, SafeMode};
use serde_json::json;

use crate::conv::{self, Be, Job, Run, Src};
use crate::model::word;
use crate::orch::*;
use crate::props::preproc::{any_doc, first_diff};
use crate::rng::Rng;
use crate::wild;

/// the real command line tool, built from the current tree by check.sh
fn exe() -> PathBuf {
  std::env::var_os("VH_CLI").map(PathBuf::from).unwrap_or_else(|| verif_dir().join("harness/target/cli/debug/asciidork"))
}

/// a directory of this case's own, removed when dropped
pub struct Scratch(pub PathBuf);

impl Scratch {
  pub fn new(id: &str, index: u64) -> Scratch {
    let base = std::env::temp_dir();
    let base = base.canonicalize().unwrap_or(base);
    let p = base.join(format!("vh-{id}-{}-{index}", std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).expect("scratch");
    Scratch(p)
  }
}

impl Drop for Scratch {
  fn drop(&mut self) {
    let _ = std::fs::remove_dir_all(&self.0);
  }
}

struct Out {
  code: Option<i32>,
  out: String,
  err: String,
}

fn call(args: &[String], cwd: &Path, stdin: Option<&[u8]>) -> Result<Out, String> {
  let mut c = Command::new(exe());
  c.args(args).current_dir(cwd).env("NO_COLOR", "1").env_remove("CLICOLOR_FORCE").stdout(Stdio::piped()).stderr(Stdio::piped());
  c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
  let mut ch = c.spawn().map_err(|e| format!("{}: {e}", exe().display()))?;
  if let Some(b) = stdin {
    let mut i = ch.stdin.take().unwrap();
    let _ = i.write_all(b);
  }
  let o = ch.wait_with_output().map_err(|e| e.to_string())?;
  Ok(Out { code: o.status.code(), out: String::from_utf8_lossy(&o.stdout).into_owned(), err: String::from_utf8_lossy(&o.stderr).into_owned() })
}

fn safe_name(s: SafeMode) -> &'static str {
  match s {
    SafeMode::Unsafe => "unsafe",
    SafeMode::Safe => "safe",
    SafeMode::Server => "server",
    SafeMode::Secure => "secure",
  }
}

pub struct FrontEnds;

/// a document whose conversion depends on nothing but itself
fn doc(r: &mut Rng) -> String {
  for _ in 0..20 {
    let s = match r.below(4) {
      0 | 1 => wild::wild(r),
      2 => {
        // text of all sorts of characters
        let mut s = String::new();
        for _ in 0..r.range(1, 12) {
          s.push_str(r.pick_s(&[
            "back\\slash", "\\n", "\\u0041", "tab\there", "\"quoted\"", "\u{1}", "\u{1f}", "\u{7f}", "é漢😀", "\u{2028}", "{x}", "</script>", "'", "//", "\\", "\\\\", "`a\\b`", "\u{feff}", "\u{b}", "\u{8}", "a\\\"b",
          ]));
          s.push_str(r.pick_s(&[" ", "\n", "\n\n", ""]));
        }
        s
      }
      _ => match any_doc(r, 3) {
        Some((_, s)) => s,
        None => continue,
      },
    };
    let l = s.to_lowercase();
    if ["local", "docdate", "doctime", "docyear", "docfile", "docdir", "include", "data-uri", "inline", "docinfo", "stylesheet", "stylesdir", "icon", "svg"].iter().any(|w| l.contains(w)) {
      continue;
    }
    return s;
  }
  "text".into()
}

impl Prop for FrontEnds {
  fn id(&self) -> &'static str {
    "C29"
  }
  fn rule(&self) -> &'static str {
    "output, exit status, files and diagnostics of the command line tool, and the JSON of the wasm entry point, equal the library's conversion"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 6_000,
      Tier::Thorough => 120_000,
    }
  }
  fn case_cpu_s(&self) -> f64 {
    60.0
  }
  fn run(&self, cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let r = &mut rng;
    let src = doc(r);
    cx.nontrivial(&src);
    if r.chance(1, 2) { wasm(cx, r, src) } else { cli(cx, r, src) }
  }
}

fn wasm(cx: &mut Cx, r: &mut Rng, src: String) {
  let now = 1_700_000_000u64;
  let job = Job::new(src.clone());
  let Run::Done(d) = conv::run(&job) else { return };
  cx.eval();
  let _ = r;
  let got = match conv::guarded(|| dr_html_wasm::convert(&src, now as f64)) {
    Ok(s) => s,
    Err((loc, msg)) => {
      cx.fail(format!("wasm: panic {loc}"), msg, job.describe());
      return;
    }
  };
  cx.count("wasm conversions");
  let v: serde_json::Value = match serde_json::from_str(&got) {
    Ok(v) => v,
    Err(e) => {
      cx.fail("wasm: result is not JSON", format!("{e}: {}", crate::html::clip(&got, 600)), job.describe());
      return;
    }
  };
  let want = json!({"success": true, "html": d.html});
  if v != want {
    cx.fail("wasm: result differs", first_diff(d.html.as_deref().unwrap_or(""), v["html"].as_str().unwrap_or("")), job.describe());
  }
}

fn cli(cx: &mut Cx, r: &mut Rng, src: String) {
  let sc = Scratch::new("c29", cx.index);
  let be = if r.chance(1, 2) { Be::Dr } else { Be::H5 };
  let mut job = Job::new(src.clone()).be(be);
  let mut args: Vec<String> = vec![];
  let mut arg = |v: &[&str]| args.extend(v.iter().map(|s| s.to_string()));
  match be {
    Be::H5 => arg(&[["-f", "--format"][r.below(2)], "html5"]),
    Be::Dr if r.chance(1, 2) => arg(&["-f", "dr-html"]),
    Be::Dr => {}
  }
  if r.chance(1, 2) {
    arg(&[r.pick_s(&["-e", "--embedded", "--no-header-footer"])]);
  } else {
    job = job.standalone();
  }
  match r.below(8) {
    0 => {
      arg(&["--doctype", "book"]);
      job = job.doctype(DocType::Book);
    }
    1 => {
      arg(&["-d", "article"]);
      job = job.doctype(DocType::Article);
    }
    2 => {
      arg(&["-d", "inline"]);
      job = job.doctype(DocType::Inline);
    }
    _ => {}
  }
  if r.chance(1, 3) {
    let s = [SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure][r.below(4)];
    arg(&[["-s", "--safe-mode"][r.below(2)], safe_name(s)]);
    job = job.safe(s);
  }
  // attributes, in every form
  let mut names = vec!["sectnums", "toc", "idprefix", "table-caption", "xattr", "note-caption", "figure-caption", "attribute-missing", "experimental", "sectids", "revnumber", "version-label", "hide-uri-scheme", "title"];
  r.shuffle(&mut names);
  for name in names.iter().take(r.below(4)) {
    let value = match *name {
      "attribute-missing" => r.pick_s(&["drop", "warn", "skip"]),
      "toc" => r.pick_s(&["left", "preamble", "macro"]),
      _ => r.pick_s(&["v", "two words", "a=b", "x_y-z", "1 & 2", "ü"]),
    };
    let (form, val, soft) = match r.below(9) {
      0 => (name.to_string(), AttrValue::Bool(true), false),
      1 => (format!("!{name}"), AttrValue::Bool(false), false),
      2 => (format!("{name}!"), AttrValue::Bool(false), false),
      3 => (format!("{name}@"), AttrValue::Bool(true), true),
      4 => (format!("{name}={value}@"), AttrValue::String(value.into()), true),
      5 => (format!("{name}@={value}"), AttrValue::String(value.into()), true),
      6 => (format!("{}={value}", name.to_uppercase()), AttrValue::String(value.into()), false),
      7 => (format!("!{name}@"), AttrValue::Bool(false), true),
      _ => (format!("{name}={value}"), AttrValue::String(value.into()), false),
    };
    if *name == "attribute-missing" && !matches!(val, AttrValue::String(_)) {
      continue;
    }
    match r.below(3) {
      0 => arg(&["-a", &form]),
      1 => arg(&["--attribute", &form]),
      _ => arg(&[&format!("--attribute={form}")]),
    }
    job.attrs.push((name.to_string(), val, soft));
  }
  let strict = r.chance(1, 3);
  if strict {
    arg(&["--strict"]);
    job = job.strict();
  }
  let js = r.chance(1, 2);
  if js {
    arg(&["--json-errors"]);
  }
  let from_file = r.chance(1, 2);
  let input = sc.0.join(r.pick_s(&["doc.adoc", "my doc.asciidoc", "d", "ü.adoc"]));
  if from_file {
    std::fs::write(&input, &src).unwrap();
    job = job.at(Src::Path(input.to_string_lossy().into()));
    // named from elsewhere or here
    if r.chance(1, 2) {
      arg(&["-i", &input.to_string_lossy()]);
    } else {
      arg(&["--input", &input.file_name().unwrap().to_string_lossy()]);
    }
  } else {
    job = job.at(Src::Stdin(sc.0.to_string_lossy().into()));
  }
  let output = sc.0.join("out put.html");
  let to_file = r.chance(1, 3);
  if to_file {
    if r.chance(1, 2) {
      std::fs::write(&output, "what was here before, and longer than the new one\n".repeat(3)).unwrap();
    }
    arg(&[["-o", "--output"][r.below(2)], &output.to_string_lossy()]);
  }
  let before = std::fs::read(&output).ok();
  // the library's result
  job.files = Some(BTreeMap::new());
  job.base_dir = Some(sc.0.to_string_lossy().into());
  let Run::Done(want) = conv::run(&job) else { return };
  cx.eval();
  let show = |what: &str, o: &Out| {
    let mut d = job.describe();
    d["args"] = json!(args);
    d["what"] = json!(what);
    d["stdout"] = json!(crate::html::clip(&o.out, 2000));
    d["stderr"] = json!(crate::html::clip(&o.err, 2000));
    d
  };
  let o = match call(&args, &sc.0, (!from_file).then_some(src.as_bytes())) {
    Ok(o) => o,
    Err(e) => {
      cx.inconclusive(&e);
      return;
    }
  };
  let after = std::fs::read(&output).ok();
  // nothing else is written
  let mut names: Vec<String> = std::fs::read_dir(&sc.0).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
  names.retain(|n| *n != "out put.html" && sc.0.join(n) != input);
  if !names.is_empty() {
    cx.fail("cli: other files written", format!("{names:?}"), show("files", &o));
    return;
  }
  if from_file && std::fs::read(&input).ok().as_deref() != Some(src.as_bytes()) {
    cx.fail("cli: input file changed", "the input file was changed", show("input", &o));
    return;
  }
  match &want.html {
    Some(h) => {
      cx.count(if to_file { "conversions to a file" } else { "conversions to stdout" });
      if o.code != Some(0) {
        cx.fail("cli: fails on an accepted document", format!("exit {:?}: {}", o.code, o.err), show("exit", &o));
        return;
      }
      let got = if to_file { after.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default() } else { o.out.strip_suffix('\n').unwrap_or(&o.out).to_string() };
      if got != *h {
        cx.fail("cli: output differs", first_diff(h, &got), show("output", &o));
        return;
      }
      if to_file && !o.out.is_empty() {
        cx.fail("cli: output on stdout and in a file", o.out.clone(), show("stdout", &o));
        return;
      }
      if !o.err.is_empty() {
        cx.fail("cli: noise on stderr", o.err.clone(), show("stderr", &o));
      }
    }
    None => {
      cx.count("rejected documents");
      if o.code != Some(1) {
        cx.fail("cli: a rejected document does not fail", format!("exit {:?}", o.code), show("exit", &o));
        return;
      }
      if !o.out.is_empty() || after != before {
        cx.fail("cli: output of a rejected document", "output despite errors", show("output", &o));
        return;
      }
      if js {
        let want_js: Vec<_> = want
          .diags
          .iter()
          .map(|d| json!({"full_line": d.line, "message": d.message, "line_num": d.line_num, "column_num_start": d.start, "column_num_end": d.start + d.width, "source_file": d.file}))
          .collect();
        match serde_json::from_str::<serde_json::Value>(o.err.trim()) {
          Err(e) => cx.fail("cli: errors are not JSON", format!("{e}: {}", o.err), show("json", &o)),
          Ok(v) if v != json!(want_js) => cx.fail("cli: JSON errors differ", format!("expected {}\n got {v}", json!(want_js)), show("json", &o)),
          _ => {}
        }
        cx.add("diagnostics as JSON", want.diags.len() as u64);
        return;
      }
      // one report per diagnostic: file, line, column, the line and the marked part of it
      let lines: Vec<&str> = o.err.split('\n').collect();
      let mut at = 0;
      for d in &want.diags {
        let a = d.line.get(..d.start as usize);
        let m = d.line.get(d.start as usize..(d.start + d.width) as usize);
        let (Some(a), Some(m)) = (a, m) else { return };
        let cols = a.chars().count();
        let head = format!("--> {}:{}:{}", d.file, d.line_num, cols + 1);
        let Some(i) = (at..lines.len()).find(|i| lines[*i].trim_start() == head) else {
          cx.fail("cli: diagnostic not reported", format!("{head} {}\n in {}", d.message, o.err), show("human", &o));
          return;
        };
        let text = format!("{} | {}", d.line_num, d.line);
        let got_line = lines.get(i + 2).copied().unwrap_or("");
        if got_line != text {
          cx.fail("cli: diagnostic shows another line", format!("expected {text:?}, got {got_line:?}"), show("human", &o));
          return;
        }
        let marks = lines.get(i + 3).copied().unwrap_or("");
        let bar = got_line.find(" | ").unwrap() + 3;
        let want_marks = format!("{}{} {}", " ".repeat(cols), "^".repeat(m.chars().count()), d.message);
        if marks.get(bar..) != Some(&want_marks) {
          cx.fail("cli: diagnostic marks another part", format!("expected {want_marks:?} below {text:?}, got {:?}", marks.get(bar..)), show("human", &o));
          return;
        }
        at = i + 4;
        cx.count("diagnostics in text");
      }
    }
  }
}

// ------------------------------------------------------------------ C23 containment

pub struct Contain;

struct Tree {
  /// marker of every file, by path below the root
  files: BTreeMap<&'static str, String>,
}

const FILES: &[&str] = &[
  "base/a.adoc",
  "base/sub/b.adoc",
  "base/sub/deep/c.adoc",
  "base/n ame.adoc",
  "secret.adoc",
  "base2/d.adoc",
  "out/e.adoc",
  "base/p.svg",
  "base/sub/q.svg",
  "out/r.svg",
  "r2.svg",
  "base/docinfo.html",
  "base/sub/docinfo.html",
  "out/docinfo.html",
  "base/s.css",
  "out/t.css",
  "base2/u.css",
];

/// links: name, what they point to (relative to the link's directory)
const LINKS: &[(&str, &str)] = &[
  ("base/lin.adoc", "sub/b.adoc"),
  ("base/lout.adoc", "../secret.adoc"),
  ("base/dout", "../out"),
  ("base/din", "sub"),
  ("base/sub/up", "../../out"),
  ("out/back", "../base"),
  ("base/gone.adoc", "nowhere.adoc"),
  ("base/lout.svg", "../r2.svg"),
];

fn b64(data: &[u8]) -> String {
  const T: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut s = String::new();
  for c in data.chunks(3) {
    let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
    for i in 0..4 {
      s.push(if i <= c.len() { T[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
    }
  }
  s
}

/// a way to write the path from `from` (a directory) to `to`, both below the root
fn spell(r: &mut Rng, root: &Path, from: &str, to: &str) -> String {
  let abs = r.chance(1, 5);
  let mut parts: Vec<String> = vec![];
  if !abs {
    let f: Vec<&str> = from.split('/').filter(|s| !s.is_empty()).collect();
    let t: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    if r.chance(4, 5) {
      while k < f.len() && k + 1 < t.len() && f[k] == t[k] {
        k += 1;
      }
    }
    parts.extend(f[k..].iter().map(|_| "..".to_string()));
    parts.extend(t[k..].iter().map(|s| s.to_string()));
  } else {
    parts.extend(to.split('/').map(|s| s.to_string()));
  }
  // detours
  if r.chance(1, 4) {
    let i = r.below(parts.len());
    parts.insert(i, ".".into());
  }
  if r.chance(1, 6) {
    if let Some(i) = parts.iter().position(|p| p == "sub") {
      parts.insert(i + 1, "deep".into());
      parts.insert(i + 2, "..".into());
    }
  }
  let p = parts.join("/");
  if abs { format!("{}/{p}", root.display()) } else { p }
}

impl Prop for Contain {
  fn id(&self) -> &'static str {
    "C23"
  }
  fn rule(&self) -> &'static str {
    "the contents of a file appear in the output if and only if the safe mode and base directory permit reading it"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 5_000,
      Tier::Thorough => 100_000,
    }
  }
  fn case_cpu_s(&self) -> f64 {
    60.0
  }
  fn run(&self, cx: &mut Cx) {
    let mut rng = cx.rng.clone();
    let r = &mut rng;
    let sc = Scratch::new("c23", cx.index);
    let root = sc.0.clone();
    let mut serial = 0;
    let mut t = Tree { files: BTreeMap::new() };
    for f in FILES {
      t.files.insert(f, format!("mark{}x", word(r, &mut serial)));
    }
    let text = |f: &str, m: &str| match f.rsplit('.').next().unwrap() {
      "svg" => format!("<svg viewBox=\"0 0 9 9\"><text>{m}</text></svg>"),
      "html" => format!("<meta name=\"x\" content=\"{m}\">\n"),
      "css" => format!(".{m} {{ color: red }}\n"),
      _ => format!("{m}\n"),
    };
    let safe = [SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure][r.below(4)];
    let unsafe_ = safe == SafeMode::Unsafe;
    let secure = safe == SafeMode::Secure;
    // where the document is, the base directory and the working directory
    let home = r.pick_s(&["base", "base", "base/sub", ""]);
    let stdin = r.chance(1, 5);
    let cwd = r.pick_s(&["base", "base", "base/sub", "", "out"]);
    let base_opt = if r.chance(2, 5) { Some(r.pick_s(&["base", "base/sub", "base2", "base/din", "out/back"])) } else { None };
    let base = match (base_opt, stdin) {
      (Some(b), _) => b,
      (None, true) => cwd,
      (None, false) => home,
    };
    for d in ["base/sub/deep", "base2", "out"] {
      std::fs::create_dir_all(root.join(d)).unwrap();
    }
    for (l, to) in LINKS {
      std::os::unix::fs::symlink(to, root.join(l)).unwrap();
    }
    let base_c = root.join(base).canonicalize().unwrap();
    // may a file (named from a directory) be read, and which is it?
    let reach = |dir: &Path, spelled: &str| -> Option<PathBuf> {
      let c = dir.join(spelled).canonicalize().ok()?;
      (c.is_file() && (unsafe_ || c.starts_with(&base_c))).then_some(c)
    };
    // nested includes: written before reading
    let mut contents: BTreeMap<&str, String> = t.files.iter().map(|(f, m)| (*f, text(f, m))).collect();
    let all_targets: Vec<&str> = FILES.iter().copied().chain(LINKS.iter().map(|l| l.0)).chain(["base/dout/e.adoc", "base/din/b.adoc", "base/sub/up/e.adoc", "out/back/a.adoc", "base/missing.adoc", "base/sub"]).filter(|f| !f.contains(' ')).collect();
    let mut nested: BTreeMap<&str, (String, &str)> = BTreeMap::new();
    if r.chance(2, 3) {
      for f in ["base/sub/b.adoc", "base/a.adoc", "out/e.adoc"] {
        if r.chance(1, 2) {
          let dir = f.rsplit_once('/').unwrap().0;
          // only files without includes of their own, so that nothing recurs
          let to = *r.pick(&["base/sub/deep/c.adoc", "secret.adoc", "base2/d.adoc", "base/lout.adoc", "base/n"]);
          let sp = spell(r, &root, dir, to);
          let c = contents.get_mut(f).unwrap();
          c.push_str(&format!("include::{sp}[]\n"));
          nested.insert(f, (sp, to));
        }
      }
    }
    for (f, c) in &contents {
      std::fs::write(root.join(f), c).unwrap();
    }
    // the document
    let mut src = String::new();
    let mut want: Vec<String> = vec![];
    let mark_of = |c: &Path| -> Option<(&'static str, String)> {
      let rel = c.strip_prefix(&root).ok()?.to_str()?;
      t.files.iter().find(|(f, _)| **f == rel).map(|(f, m)| (*f, m.clone()))
    };
    let mut head = String::from("= Doc\n");
    let imagesdir = if r.chance(1, 3) { Some(r.pick_s(&["sub", "..", ".", "../out", "dout"])) } else { None };
    if let Some(d) = imagesdir {
      head.push_str(&format!(":imagesdir: {d}\n"));
    }
    let data_uri = r.chance(1, 3);
    if data_uri {
      head.push_str(":data-uri:\n");
    }
    if r.chance(1, 4) {
      let d = r.pick_s(&["sub", "../out", ".", "dout", "nodir"]);
      head.push_str(&format!(":docinfo: shared-head\n:docinfodir: {d}\n"));
      if !secure {
        if let Some(c) = reach(&root.join(base), &format!("{d}/docinfo.html")) {
          want.extend(mark_of(&c).map(|m| m.1));
        }
      }
    }
    let mut css_err = false;
    if r.chance(1, 5) {
      let to = *r.pick(&["base/s.css", "out/t.css", "base2/u.css", "base/none.css"]);
      let sp = spell(r, &root, cwd, to);
      head.push_str(&format!(":stylesheet: {sp}\n"));
      // style sheets are looked for in the working directory
      let cw = root.join(cwd).canonicalize().unwrap();
      match root.join(cwd).join(&sp).canonicalize().ok().filter(|c| unsafe_ || c.starts_with(&cw)) {
        Some(c) => want.extend(mark_of(&c).map(|m| m.1)),
        None => css_err = true,
      }
    }
    let mut via_attr = 0;
    for i in 0..r.range(1, 6) {
      let to = *r.pick(&all_targets);
      if to.ends_with(".html") || to.ends_with(".css") {
        continue;
      }
      if to.ends_with(".svg") {
        let dir = match imagesdir {
          Some(d) => root.join(base).join(d),
          None => root.join(base),
        };
        let Ok(dc) = dir.canonicalize() else { continue };
        let Ok(from) = dc.strip_prefix(&root) else { continue };
        let from = from.to_str().unwrap().to_string();
        let sp = spell(r, &root, &from, to);
        let inline = r.chance(1, 2);
        src.push_str(&match (inline, r.chance(1, 2)) {
          (true, true) => format!("image::{sp}[opts=inline]\n\n"),
          (true, false) => format!("text image:{sp}[opts=inline] text\n\n"),
          (false, true) => format!("image::{sp}[]\n\n"),
          (false, false) => format!("text image:{sp}[] text\n\n"),
        });
        if !secure && (inline || data_uri) {
          if let Some(c) = reach(&dir, &sp) {
            if let Some((f, m)) = mark_of(&c) {
              want.push(if inline { m } else { b64(contents[f].as_bytes()) });
            }
          }
        }
        continue;
      }
      let sp = spell(r, &root, base, to);
      let line = if r.chance(1, 6) {
        via_attr += 1;
        let (a, b) = sp.split_at(sp.rfind('/').map_or(0, |i| i + 1));
        if a.is_empty() {
          format!("include::{sp}[]")
        } else {
          head.push_str(&format!(":d{via_attr}: {a}\n"));
          format!("include::{{d{via_attr}}}{b}[]")
        }
      } else {
        format!("include::{sp}[]")
      };
      match r.below(5) {
        0 => src.push_str(&format!("----\n{line}\n----\n\n")),
        1 => src.push_str(&format!("|===\n| c{i}\n{line}\n|===\n\n")),
        2 => src.push_str(&format!("|===\na| c{i}\n\n{line}\n|===\n\n")),
        3 => src.push_str(&format!("* item\n+\n{line}\n\n//\n\n")),
        _ => src.push_str(&format!("{line}\n\n")),
      }
      if !secure {
        if let Some(c) = reach(&root.join(base), &sp) {
          if let Some((f, m)) = mark_of(&c) {
            want.push(m);
            if let Some((nsp, _)) = nested.get(f) {
              // relative to the directory of the file as it was named
              let dir = root.join(base).join(&sp).parent().unwrap().to_path_buf();
              if let Some(c) = reach(&dir, nsp) {
                want.extend(mark_of(&c).map(|m| m.1));
              }
            }
          }
        }
      }
    }
    head.push('\n');
    let src = head + &src;
    // run it
    let mut args: Vec<String> = vec!["-s".into(), safe_name(safe).into()];
    if let Some(b) = base_opt {
      args.push("-B".into());
      args.push(if r.chance(1, 2) {
        root.join(b).to_string_lossy().into()
      } else {
        let up = cwd.split('/').filter(|s| !s.is_empty()).map(|_| "../").collect::<String>();
        format!("{up}{b}")
      });
    }
    let file = root.join(home).join("main.adoc");
    if !stdin {
      std::fs::write(&file, &src).unwrap();
      args.push("-i".into());
      args.push(file.to_string_lossy().into());
    }
    if r.chance(1, 2) {
      args.extend(["-f".into(), "html5".into()]);
    }
    cx.nontrivial(&src);
    cx.eval();
    let o = match call(&args, &root.join(cwd), stdin.then_some(src.as_bytes())) {
      Ok(o) => o,
      Err(e) => {
        cx.inconclusive(&e);
        return;
      }
    };
    let show = || {
      json!({"input": src, "args": args.iter().map(|a| a.replace(&*root.to_string_lossy(), "ROOT")).collect::<Vec<_>>(), "cwd": cwd, "home": home, "base": base, "nested": format!("{nested:?}"), "stdout": crate::html::clip(&o.out, 3000), "stderr": o.err})
    };
    cx.sample(|| json!({"src": src}));
    if o.code != Some(0) {
      cx.fail("containment: conversion fails", format!("exit {:?}: {}", o.code, o.err), show());
      return;
    }
    if css_err != o.err.contains("stylesheet") {
      cx.fail("containment: style sheet error", format!("error expected: {css_err}, got {:?}", o.err), show());
      return;
    }
    // every file's contents, as text or encoded, as often as expected
    for (f, m) in &t.files {
      let enc = b64(contents[f].as_bytes());
      for (needle, how) in [(m, "text"), (&enc, "data")] {
        let n = want.iter().filter(|w| *w == needle).count();
        let got = o.out.matches(needle.as_str()).count();
        cx.add("file contents expected", n as u64);
        if got > n {
          let outside = root.join(f).canonicalize().map_or(true, |c| !c.starts_with(&base_c));
          let kind = if outside && !unsafe_ { "a file outside of the base directory is read" } else if secure { "a file is read in secure mode" } else { "a file is read too often" };
          cx.fail(format!("containment: {kind}"), format!("{f} ({how}) appears {got} times, expected {n}"), show());
          return;
        }
        if got < n {
          cx.fail("containment: a permitted file is not read", format!("{f} ({how}) appears {got} times, expected {n}"), show());
          return;
        }
      }
    }
    cx.count(match (unsafe_, secure) {
      (true, _) => "unsafe mode",
      (_, true) => "secure mode",
      _ => "restricted modes",
    });
  }
}
