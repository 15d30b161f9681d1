//! C08: attribute values in effect at each place of a document.

use std::collections::BTreeMap;

use asciidork_core::AttrValue;

use crate::conv::Job;
use crate::html::Node;
use crate::model::{canon, div, el, txt};
use crate::orch::*;
use crate::props::modelled::compare_with;
use crate::rng::Rng;

pub struct Attributes;

const NAMES: &[&str] = &["aa", "b-2", "c_c", "d4d", "0e", "_f"];

#[derive(Clone, Debug)]
enum Piece {
  Word(String),
  Ref(&'static str),
  /// reference no value is ever given to
  Never,
  Esc(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Missing {
  Skip,
  Warn,
  Drop,
  DropLine,
}

struct W<'a> {
  r: &'a mut Rng,
  src: String,
  /// in effect; `None`: unset
  vals: BTreeMap<&'static str, Option<String>>,
  locked: Vec<&'static str>,
  missing: Missing,
  warns: usize,
  n: u32,
  blocks_left: usize,
  files: BTreeMap<String, Vec<u8>>,
  feats: Vec<&'static str>,
}

/// what a line of pieces gives: its text, or nothing when the line is dropped
type Got = Option<String>;

impl W<'_> {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }
  fn name(&mut self) -> &'static str {
    NAMES[self.r.below(NAMES.len())]
  }
  fn spell(&mut self, n: &str) -> String {
    if self.r.chance(1, 6) { n.to_uppercase() } else { n.into() }
  }
  fn pieces(&mut self, may_miss: bool) -> Vec<Piece> {
    let mut v = vec![];
    for i in 0..self.r.range(1, 4) {
      if i > 0 && self.r.chance(2, 3) && !matches!(v.last(), Some(Piece::Word(w)) if w == " ") {
        v.push(Piece::Word(" ".into()));
      }
      v.push(match self.r.below(8) {
        0 => Piece::Word(self.word()),
        1 => {
          let n = self.name();
          Piece::Esc(n)
        }
        2 if may_miss => Piece::Never,
        _ => {
          let n = self.name();
          if may_miss || self.val(n).is_some() { Piece::Ref(n) } else { Piece::Word(self.word()) }
        }
      });
    }
    v
  }
  fn val(&self, n: &str) -> Option<String> {
    self.vals.get(n).cloned().flatten()
  }
  fn src_of(&mut self, v: &[Piece]) -> String {
    let mut s = String::new();
    for p in v {
      match p {
        Piece::Word(w) => s.push_str(w),
        Piece::Ref(n) => s.push_str(&format!("{{{}}}", self.spell(n))),
        Piece::Never => s.push_str("{never}"),
        Piece::Esc(n) => s.push_str(&format!("\\{{{n}}}")),
      }
    }
    s
  }
  /// `src` as written, with the references replaced
  fn text(&mut self, v: &[Piece], src: &str) -> Got {
    let mut out = String::new();
    let mut drop = false;
    let mut at = 0;
    for p in v {
      let len = match p {
        Piece::Word(w) => w.len(),
        Piece::Ref(n) => n.len() + 2,
        Piece::Never => 7,
        Piece::Esc(n) => n.len() + 3,
      };
      let written = &src[at..at + len];
      at += len;
      match p {
        Piece::Word(w) => out.push_str(w),
        Piece::Esc(_) => out.push_str(&written[1..]),
        _ => {
          let v = if let Piece::Ref(n) = p { self.val(n) } else { None };
          match (v, self.missing) {
            (Some(v), _) => out.push_str(&v),
            (None, Missing::Skip) => out.push_str(written),
            (None, Missing::Warn) => {
              self.warns += 1;
              out.push_str(written);
            }
            (None, Missing::Drop) => {}
            (None, Missing::DropLine) => drop = true,
          }
        }
      }
    }
    (!drop).then_some(out)
  }
  /// one line of text where all references resolve
  fn line(&mut self) -> (String, String) {
    let v = self.pieces(false);
    let s = self.src_of(&v);
    let t = self.text(&v, &s).unwrap();
    // a word at both ends, so that nothing else starts or ends here
    let (a, b) = (self.word(), self.word());
    (format!("{a} {s} {b}"), format!("{a} {t} {b}"))
  }
  /// a name whose value may stand in targets and names
  fn plain_name(&mut self) -> Option<(&'static str, String)> {
    let c: Vec<_> = NAMES
      .iter()
      .filter_map(|n| Some((*n, self.val(n)?)))
      .filter(|(_, v)| !v.is_empty() && v.bytes().all(|b| b.is_ascii_alphanumeric()))
      .collect();
    (!c.is_empty()).then(|| c[self.r.below(c.len())].clone())
  }

  fn entry(&mut self, header: bool) {
    let n = self.name();
    let name = self.spell(n);
    let lock = self.locked.contains(&n);
    if self.r.chance(1, 5) {
      self.src.push_str(&if self.r.chance(1, 2) { format!(":!{name}:\n") } else { format!(":{name}!:\n") });
      if !lock {
        self.vals.insert(n, None);
      }
      return;
    }
    if self.r.chance(1, 8) {
      self.src.push_str(&format!(":{name}:{}\n", if self.r.chance(1, 3) { " " } else { "" }));
      if !lock {
        self.vals.insert(n, Some(String::new()));
      }
      return;
    }
    let mut v: Vec<Piece> = match self.r.below(6) {
      0 => vec![Piece::Word(format!("x & y <{}>", self.n))],
      1 | 2 => vec![Piece::Word(self.word())],
      3 => vec![Piece::Word("two words".into())],
      4 if self.r.chance(1, 2) => {
        self.feats.push("marks in values");
        vec![Piece::Word(self.r.pick_s(&["k * l", "m_n o_p", "^q^", "r~", "s+t u+", "v** w", "x# y", "#z", "a`b"]).into())]
      }
      _ => self.pieces(self.missing != Missing::Warn && self.missing != Missing::DropLine),
    };
    for p in &mut v {
      if matches!(p, Piece::Esc(_)) {
        *p = Piece::Word("esc".into());
      }
    }
    if v.iter().all(|p| matches!(p, Piece::Word(w) if w.trim().is_empty())) {
      v = vec![Piece::Word(self.word())];
    }
    let s = self.src_of(&v);
    let t = self.text(&v, &s).unwrap();
    let mut s = s;
    // wrapped over lines where the value has blanks of its own
    if s.contains(' ') && self.r.chance(1, 3) {
      let ind = self.r.pick_s(&["", "  ", "\t"]);
      s = s.replace(' ', &format!(" \\\n{ind}"));
      self.feats.push("wrapped entry");
    }
    self.src.push_str(&format!(":{name}: {s}\n"));
    // blanks around an empty value within fold; the comparison folds them too
    if !lock {
      self.vals.insert(n, Some(t));
    } else {
      self.feats.push("locked entry");
    }
    let _ = header;
  }

  fn events(&mut self, depth: usize, cell: bool) -> Vec<Node> {
    let mut out = vec![];
    let para = |s: String| div("paragraph", vec![el("p", &[], vec![txt(s)])]);
    for _ in 0..self.r.range(1, if depth == 0 { 9 } else { 3 }) {
      if self.blocks_left == 0 {
        break;
      }
      self.blocks_left -= 1;
      match self.r.below(22) {
        21 => {
          // marks within values mean nothing to the text around them
          let (s, t) = self.line();
          let (a, b) = (self.word(), self.word());
          let (m, tag) = *self.r.pick(&[("*", "strong"), ("_", "em"), ("`", "code"), ("#", "mark"), ("**", "strong"), ("__", "em"), ("``", "code")]);
          // an escaped reference is text, with its underscores
          let (m, tag) = if s.contains('\\') && tag == "em" { ("*", "strong") } else { (m, tag) };
          let (x, y) = if m.len() == 2 { ("", "") } else { (" ", " ") };
          self.src.push_str(&format!("{a}{x}{m}{s}{m}{y}{b}\n\n"));
          out.push(div("paragraph", vec![el("p", &[], vec![txt(format!("{a}{x}")), el(tag, &[], vec![txt(t)]), txt(format!("{y}{b}"))])]));
          self.feats.push("formatted text");
        }
        0..=3 => {
          self.entry(false);
          match self.r.below(3) {
            0 => {}
            _ => self.src.push('\n'),
          }
        }
        4 if depth == 0 => {
          let (m, s) = *self.r.pick(&[(Missing::Skip, "skip"), (Missing::Warn, "warn"), (Missing::Drop, "drop"), (Missing::DropLine, "drop-line")]);
          self.src.push_str(&format!(":attribute-missing: {s}\n\n"));
          self.missing = m;
        }
        5..=7 => {
          // lines of a paragraph, the first and last without missing references
          let mut lines = vec![];
          let (s, t) = self.line();
          self.src.push_str(&format!("{s}\n"));
          lines.push(t);
          for _ in 0..self.r.below(3) {
            let v = self.pieces(true);
            let s = self.src_of(&v);
            let w = self.word();
            if let Some(t) = self.text(&v, &s) {
              lines.push(format!("{w} {t}"));
            } else {
              self.feats.push("dropped line");
            }
            self.src.push_str(&format!("{w} {s}\n"));
          }
          self.src.push('\n');
          out.push(para(lines.join(" ")));
        }
        8 => {
          let (s, t) = self.line();
          let on = self.r.pick_s(&["", "[subs=attributes]\n", "[subs=\"attributes\"]\n", "[subs=\"+attributes\"]\n"]);
          let s1 = format!("{on}----\n{s}\n----\n\n");
          self.src.push_str(&s1);
          let t = if on.is_empty() { s } else { t };
          let t = if !on.is_empty() && !on.contains("+") && (t.contains('&') || t.contains('<')) {
            // specialchars are not replaced here, so leave those values to others
            self.src.truncate(self.src.len() - s1.len());
            continue;
          } else {
            t
          };
          out.push(div("listingblock", vec![div("content", vec![el("pre", &[], vec![txt(t)])])]));
          self.feats.push("listing");
        }
        9 => {
          let (s, t) = self.line();
          let (s2, t2) = self.line();
          // comments do not separate lists in cells
          let end = if cell { self.word() } else { "//-".into() };
          self.src.push_str(&format!("* {s}\n* {s2}\n\n{end}\n\n"));
          out.push(div("ulist", vec![el("ul", &[], vec![el("li", &[], vec![el("p", &[], vec![txt(t)])]), el("li", &[], vec![el("p", &[], vec![txt(t2)])])])]));
          if cell {
            out.push(para(end));
          }
          self.feats.push("list");
        }
        10 => {
          let (s, t) = self.line();
          let w = self.word();
          self.src.push_str(&format!(".{s}\n{w}\n\n"));
          out.push(div("paragraph", vec![div("title", vec![txt(t)]), el("p", &[], vec![txt(w)])]));
          self.feats.push("title");
        }
        11 if !cell => {
          let (s, t) = self.line();
          let (s2, t2) = self.line();
          self.src.push_str(&format!("|===\n|{s} |{s2}\n|===\n\n"));
          let td = |t: String| el("td", &[("class", "tableblock halign-left valign-top")], vec![el("p", &[("class", "tableblock")], vec![txt(t)])]);
          out.push(table(2, vec![td(t), td(t2)]));
          self.feats.push("table");
        }
        12 if depth < 2 => {
          let saved = self.src.len();
          self.src.push_str("****\n");
          let at = self.src.len();
          let k = self.events(2, cell);
          if self.src.len() == at {
            self.src.truncate(saved);
            continue;
          }
          self.src.push_str("****\n\n");
          out.push(div("sidebarblock", vec![div("content", k)]));
        }
        13 if !cell && depth < 2 => {
          // what a cell sets stays in it
          let (vals, m) = (self.vals.clone(), self.missing);
          self.src.push_str("|===\na|\n");
          if self.r.chance(1, 2) {
            self.entry(true);
            self.src.push('\n');
          }
          let k = self.events(2, true);
          while self.src.ends_with('\n') {
            self.src.pop();
          }
          self.src.push_str("\n|===\n\n");
          self.vals = vals;
          self.missing = m;
          out.push(table(1, vec![el("td", &[("class", "tableblock halign-left valign-top")], vec![div("content", k)])]));
          self.feats.push("cell");
        }
        14 => {
          let Some((n, v)) = self.plain_name() else { continue };
          let (s, t) = self.line();
          let (a, b) = (self.word(), self.word());
          self.src.push_str(&format!("{a} link:{{{n}}}/x.html[{s}] {b}\n\n"));
          out.push(div("paragraph", vec![el("p", &[], vec![txt(format!("{a} ")), el("a", &[("href", &format!("{v}/x.html"))], vec![txt(t)]), txt(format!(" {b}"))])]));
          self.feats.push("link");
        }
        15 => {
          let Some((n, v)) = self.plain_name() else { continue };
          let (s, t) = self.line();
          if t.contains("  ") {
            continue;
          }
          self.src.push_str(&format!("image::{{{n}}}.png[{s}]\n\n"));
          out.push(div("imageblock", vec![div("content", vec![el("img", &[("src", &format!("{v}.png")), ("alt", &t)], vec![])])]));
          self.feats.push("image");
        }
        16 => {
          let Some((n, v)) = self.plain_name() else { continue };
          let Some((n2, v2)) = self.plain_name() else { continue };
          let w = self.word();
          self.src.push_str(&format!("[#{w}-{{{n}}}.r{{{n2}}}]\n{w}\n\n"));
          out.push(el("div", &[("id", &format!("{w}-{v}")), ("class", &format!("paragraph r{v2}"))], vec![el("p", &[], vec![txt(w)])]));
          self.feats.push("block attributes");
        }
        17 if !cell => {
          let n = self.name();
          let (kind, shown) = if self.r.chance(1, 2) { ("ifdef", self.val(n).is_some()) } else { ("ifndef", self.val(n).is_none()) };
          let w = self.word();
          self.src.push_str(&format!("{kind}::{n}[]\n{w}\n\nendif::[]\n"));
          if shown {
            out.push(para(w));
          }
          self.feats.push("condition");
        }
        18 if !cell => {
          let n = self.name();
          let v = self.val(n).unwrap_or_default();
          let other = if self.r.chance(1, 2) { v.clone() } else { self.word() };
          if other.contains(['<', '&', '{']) || v.contains(['<', '&', '{']) {
            continue;
          }
          let w = self.word();
          self.src.push_str(&format!("ifeval::[\"{{{n}}}\" == \"{other}\"]\n{w}\n\nendif::[]\n"));
          if v == other {
            out.push(para(w));
          }
          self.feats.push("evaluated condition");
        }
        19 => {
          let Some((n, v)) = self.plain_name() else { continue };
          let (a, b) = (self.word(), self.word());
          let (o, tag) = *self.r.pick(&[("*", "strong"), ("_", "em"), ("`", "code"), ("+", ""), ("#", "mark")]);
          self.src.push_str(&format!("{a} {o}{{{n}}}{o} {b}\n\n"));
          let mid = if tag.is_empty() { txt(format!("{{{n}}}")) } else { el(tag, &[], vec![txt(v)]) };
          out.push(div("paragraph", vec![el("p", &[], vec![txt(format!("{a} ")), mid, txt(format!(" {b}"))])]));
          self.feats.push("formatted");
        }
        20 if depth == 0 => {
          let Some((n, v)) = self.plain_name() else { continue };
          let (s, t) = self.line();
          // the file holds the references as of its last inclusion
          let f = format!("f{}-{v}.adoc", self.files.len());
          self.src.push_str(&format!("include::f{}-{{{n}}}.adoc[]\n\n", self.files.len()));
          self.files.insert(f, format!("{s}\n").into_bytes());
          out.push(para(t));
          self.feats.push("include");
        }
        _ => {
          let (s, t) = self.line();
          self.src.push_str(&format!("{s}\n\n"));
          out.push(para(t));
        }
      }
    }
    out
  }
}

fn table(cols: usize, tds: Vec<Node>) -> Node {
  let col = || el("col", &[("style", if cols == 1 { "width: 100.00%;" } else { "width: 50.00%;" })], vec![]);
  el(
    "table",
    &[("class", "tableblock frame-all grid-all stretch")],
    vec![el("colgroup", &[], (0..cols).map(|_| col()).collect()), el("tbody", &[], vec![el("tr", &[], tds)])],
  )
}

impl Prop for Attributes {
  fn id(&self) -> &'static str {
    "C08"
  }
  fn rule(&self) -> &'static str {
    "attribute references, targets and conditions give what the values in effect at that place prescribe"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 60_000,
      Tier::Thorough => 1_000_000,
    }
  }
  fn run(&self, cx: &mut Cx) {
    let (job, exp, warns) = make(cx);
    cx.nontrivial(&job.src);
    cx.sample(|| job.describe());
    compare_with(cx, &job, &canon(&exp), |d| {
      if let Some(o) = d.iter().find(|d| !d.message.contains("missing attribute")) {
        return Some((format!("diagnostic: {}", o.message), format!("{d:?}")));
      }
      (d.len() != warns).then(|| ("number of warnings of missing attributes".into(), format!("expected {warns}, got {d:?}")))
    });
  }
}

/// a document, the DOM it has to have, and its number of warnings
pub fn make(cx: &mut Cx) -> (Job, Vec<Node>, usize) {
    let mut r = cx.rng.clone();
    let blocks_left = r.range(2, 14);
    let mut w = W {
      r: &mut r,
      src: String::new(),
      vals: BTreeMap::new(),
      locked: vec![],
      missing: Missing::Skip,
      warns: 0,
      n: 0,
      blocks_left,
      files: BTreeMap::new(),
      feats: vec![],
    };
    let mut job = Job::new("").safe(asciidork_core::SafeMode::Safe).at(crate::conv::Src::Path("/docs/main.adoc".into()));
    for n in NAMES {
      if !w.r.chance(1, 4) {
        continue;
      }
      let (v, m): (AttrValue, Option<String>) = match w.r.below(5) {
        0 => (AttrValue::Bool(false), None),
        1 => (AttrValue::Bool(true), Some(String::new())),
        2 => (AttrValue::String("".into()), Some(String::new())),
        3 => (AttrValue::String("j k".into()), Some("j k".into())),
        _ => {
          let x = w.word();
          (AttrValue::String(x.clone()), Some(x))
        }
      };
      if w.r.chance(1, 2) {
        job = job.attr(n, v);
        w.locked.push(n);
      } else {
        job = job.soft_attr(n, v);
      }
      w.vals.insert(n, m);
    }
    if w.r.chance(1, 4) {
      let (m, s) = *w.r.pick(&[(Missing::Skip, "skip"), (Missing::Warn, "warn"), (Missing::Drop, "drop"), (Missing::DropLine, "drop-line")]);
      w.src.push_str(&format!(":attribute-missing: {s}\n"));
      w.missing = m;
    }
    for _ in 0..w.r.below(6) {
      w.entry(true);
    }
    if !w.src.is_empty() {
      w.src.push('\n');
    }
    let mut exp = w.events(0, false);
    let mut sect = 0;
    while w.blocks_left > 0 && w.r.chance(1, 2) {
      sect += 1;
      let (s, t) = w.line();
      while !w.src.is_empty() && !w.src.ends_with("\n\n") {
        w.src.push('\n');
      }
      w.src.push_str(&format!("[#s{sect}]\n== {s}\n\n"));
      let k = w.events(0, false);
      exp.push(div("sect1", vec![el("h2", &[("id", &format!("s{sect}"))], vec![txt(t)]), div("sectionbody", k)]));
    }
    let (src, warns, files) = (std::mem::take(&mut w.src), w.warns, std::mem::take(&mut w.files));
    for f in &w.feats {
      cx.count(f);
    }
    job.src = src;
    job.files = Some(files.into_iter().map(|(k, v)| (format!("/docs/{k}"), v)).collect());
    job.base_dir = Some("/docs".into());
    (job, exp, warns)
}
