//! C17: captions, their numbers, and admonition labels.

use std::collections::BTreeMap;

use crate::conv::Job;
use crate::html::Node;
use crate::model::{canon, div, el, txt};
use crate::orch::*;
use crate::props::modelled::compare;
use crate::rng::Rng;

pub struct Captions;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Kind {
  Example,
  Table,
  Image,
  Listing,
}

impl Kind {
  fn attr(self) -> &'static str {
    match self {
      Kind::Example => "example-caption",
      Kind::Table => "table-caption",
      Kind::Image => "figure-caption",
      Kind::Listing => "listing-caption",
    }
  }
}

#[derive(Clone, Debug)]
enum B {
  Para(String),
  Titled { kind: Kind, title: Option<String>, caption: Option<&'static str>, form: usize, kids: Vec<B> },
  /// label key, own caption, as paragraph or block
  Adm { kind: &'static str, caption: Option<&'static str>, title: Option<String>, block: bool, kids: Vec<B> },
  Wrap { form: usize, kids: Vec<B> },
  Item(Vec<B>),
  Cell(Vec<B>),
  Set(&'static str, Option<&'static str>),
  Sect(u32),
}

const SETS: &[(&str, Option<&str>)] = &[
  ("table-caption", Some("Tbl")),
  ("table-caption", None),
  ("table-caption", Some("Table")),
  ("figure-caption", Some("Fig.")),
  ("figure-caption", None),
  ("example-caption", None),
  ("example-caption", Some("Ex <1>")),
  ("listing-caption", Some("Listing")),
  ("listing-caption", Some("Listing")),
  ("listing-caption", None),
  ("note-caption", Some("NB")),
  ("tip-caption", Some("Hint")),
  ("warning-caption", Some("Watch out")),
];

struct G<'a> {
  r: &'a mut Rng,
  n: u32,
  left: usize,
}

impl G<'_> {
  fn title(&mut self) -> Option<String> {
    self.r.chance(4, 5).then(|| {
      self.n += 1;
      format!("Title {}", self.n)
    })
  }
  fn caption(&mut self) -> Option<&'static str> {
    match self.r.below(9) {
      0 => Some("Own: "),
      1 => Some(""),
      2 => Some("A & B "),
      _ => None,
    }
  }
  /// `in_ex`: a titled example encloses; `in_cell`: within a table cell
  fn block(&mut self, depth: usize, in_ex: bool, in_cell: bool) -> B {
    self.left = self.left.saturating_sub(1);
    match self.r.below(12) {
      0 if !in_ex || self.r.chance(1, 3) => {
        let title = if in_ex { None } else { self.title() };
        let caption = self.caption();
        let t = title.is_some();
        let kids = self.kids(depth, in_ex || t, in_cell);
        B::Titled { kind: Kind::Example, title, caption, form: 0, kids }
      }
      1 | 2 if !in_cell => B::Titled { kind: Kind::Table, title: self.title(), caption: self.caption(), form: 0, kids: vec![] },
      3 | 4 => B::Titled { kind: Kind::Image, title: self.title(), caption: self.caption(), form: self.r.below(2), kids: vec![] },
      5 | 6 => B::Titled { kind: Kind::Listing, title: self.title(), caption: self.caption(), form: self.r.below(3), kids: vec![] },
      7 => {
        let kind = self.r.pick_s(&["NOTE", "TIP", "IMPORTANT", "WARNING", "CAUTION"]);
        let block = self.r.chance(1, 2) && depth < 3;
        let title = if self.r.chance(1, 3) { self.title() } else { None };
        let kids = if block { self.kids(depth, true, in_cell) } else { vec![] };
        B::Adm { kind, caption: self.caption(), title, block, kids }
      }
      8 if depth < 3 => B::Wrap { form: self.r.below(3), kids: self.kids(depth, in_ex, in_cell) },
      9 if depth < 3 && !in_cell => B::Cell(self.kids(depth + 1, in_ex, true)),
      10 if depth == 0 => B::Item(self.kids(depth, in_ex, in_cell)),
      _ => B::Para(format!("word {}", self.r.below(100))),
    }
  }
  fn kids(&mut self, depth: usize, in_ex: bool, in_cell: bool) -> Vec<B> {
    if depth >= 3 {
      return vec![B::Para("deep".into())];
    }
    let n = self.r.range(1, 3);
    let mut v = vec![];
    for _ in 0..n {
      if self.r.chance(1, 8) {
        let s = *self.r.pick(SETS);
        v.push(B::Set(s.0, s.1));
      }
      v.push(self.block(depth + 1, in_ex, in_cell));
      if self.left == 0 {
        break;
      }
    }
    v
  }
}

fn src(v: &[B], out: &mut String, ex: usize, cell: bool) {
  for b in v {
    let bar = if cell { '!' } else { '|' };
    match b {
      B::Para(p) => out.push_str(&format!("{p}\n\n")),
      B::Set(k, Some(val)) => out.push_str(&format!("{}\n\n", format!(":{k}: {val}").trim_end())),
      B::Set(k, None) => out.push_str(&format!(":{k}!:\n\n")),
      B::Sect(n) => out.push_str(&format!("== Part {n}\n\n")),
      B::Titled { kind, title, caption, form, kids } => {
        if let Some(t) = title {
          out.push_str(&format!(".{t}\n"));
        }
        if let (Some(c), true) = (caption, !(*kind == Kind::Image && *form == 1)) {
          out.push_str(&format!("[caption=\"{c}\"]\n"));
        }
        match kind {
          Kind::Example => {
            let d = "=".repeat(4 + ex);
            out.push_str(&format!("{d}\n"));
            src(kids, out, ex + 1, cell);
            out.push_str(&format!("{d}\n\n"));
          }
          Kind::Table => out.push_str(&format!("{bar}===\n{bar} a\n{bar}===\n\n")),
          Kind::Image if *form == 1 && caption.is_some() => out.push_str(&format!("image::p.png[caption=\"{}\"]\n\n", caption.unwrap())),
          Kind::Image => out.push_str("image::p.png[]\n\n"),
          Kind::Listing => match form {
            0 => out.push_str("----\nx = 1\n----\n\n"),
            1 => out.push_str("[source,ruby]\n----\nx = 1\n----\n\n"),
            _ => out.push_str("[listing]\nx = 1\n\n"),
          },
        }
      }
      B::Adm { kind, caption, title, block, kids } => {
        if let Some(t) = title {
          out.push_str(&format!(".{t}\n"));
        }
        if let Some(c) = caption {
          out.push_str(&format!("[caption=\"{c}\"]\n"));
        }
        if *block {
          let d = "=".repeat(4 + ex);
          out.push_str(&format!("[{kind}]\n{d}\n"));
          src(kids, out, ex + 1, cell);
          out.push_str(&format!("{d}\n\n"));
        } else {
          out.push_str(&format!("{kind}: mind this\n\n"));
        }
      }
      B::Wrap { form, kids } => {
        let d = ["****", "____", "--"][*form];
        out.push_str(&format!("{d}\n"));
        src(kids, out, ex, cell);
        out.push_str(&format!("{d}\n\n"));
      }
      B::Item(kids) => {
        let mut inner = String::new();
        src(kids, &mut inner, ex + 4, cell);
        // one open block holds whatever the item carries
        out.push_str("* item\n+\n--\n");
        out.push_str(inner.trim_end());
        out.push_str("\n--\n\n//-\n\n");
      }
      B::Cell(kids) => {
        let mut inner = String::new();
        src(kids, &mut inner, ex, true);
        out.push_str("|===\na|\n");
        out.push_str(inner.trim_end());
        out.push_str("\n|===\n\n");
      }
    }
  }
}

struct E {
  attrs: BTreeMap<String, Option<String>>,
  nums: BTreeMap<Kind, u32>,
}

impl E {
  fn label(&mut self, kind: Kind, title: &str, caption: Option<&str>) -> String {
    if let Some(c) = caption {
      return format!("{c}{title}");
    }
    match self.attrs.get(kind.attr()).cloned().flatten() {
      Some(p) => {
        let n = self.nums.entry(kind).or_insert(0);
        *n += 1;
        format!("{p} {n}. {title}")
      }
      None => title.to_string(),
    }
  }
  fn doms(&mut self, v: &[B], in_item: bool) -> Vec<Node> {
    let mut out = vec![];
    let para = |s: &str| div("paragraph", vec![el("p", &[], vec![txt(s)])]);
    for b in v {
      match b {
        B::Para(p) => out.push(para(p)),
        B::Set(k, v) => {
          self.attrs.insert(k.to_string(), v.map(|v| v.to_string()));
        }
        B::Sect(_) => unreachable!(),
        B::Titled { kind, title, caption, form, kids } => {
          let label = title.as_ref().map(|t| self.label(*kind, t, *caption));
          let mut k = vec![];
          let t = |tag: &str| label.iter().map(|l| el(tag, &[("class", "title")], vec![txt(l.as_str())])).collect::<Vec<_>>();
          match kind {
            Kind::Example => {
              k.extend(t("div"));
              let inner = self.doms(kids, false);
              k.push(div("content", inner));
              out.push(div("exampleblock", k));
            }
            Kind::Table => {
              k.extend(t("caption"));
              k.push(el("colgroup", &[], vec![el("col", &[("style", "width: 100.00%;")], vec![])]));
              k.push(el(
                "tbody",
                &[],
                vec![el(
                  "tr",
                  &[],
                  vec![el("td", &[("class", "tableblock halign-left valign-top")], vec![el("p", &[("class", "tableblock")], vec![txt("a")])])],
                )],
              ));
              out.push(el("table", &[("class", "tableblock frame-all grid-all stretch")], k));
            }
            Kind::Image => {
              k.push(div("content", vec![el("img", &[("src", "p.png"), ("alt", "p")], vec![])]));
              k.extend(t("div"));
              out.push(div("imageblock", k));
            }
            Kind::Listing => {
              k.extend(t("div"));
              let pre = if *form == 1 {
                el("pre", &[("class", "highlight")], vec![el("code", &[("class", "language-ruby"), ("data-lang", "ruby")], vec![txt("x = 1")])])
              } else {
                el("pre", &[], vec![txt("x = 1")])
              };
              k.push(div("content", vec![pre]));
              out.push(div("listingblock", k));
            }
          }
        }
        B::Adm { kind, caption, title, block, kids } => {
          let low = kind.to_lowercase();
          let label = match caption {
            Some(c) => c.to_string(),
            None => self.attrs.get(&format!("{low}-caption")).cloned().flatten().unwrap_or_default(),
          };
          let icon = el("div", &[("class", "title")], vec![txt(label.as_str())]);
          let mut content = vec![];
          if let Some(t) = title {
            content.push(div("title", vec![txt(t.as_str())]));
          }
          if *block {
            content.extend(self.doms(kids, false));
          } else {
            content.push(txt("mind this"));
          }
          out.push(div(
            &format!("admonitionblock {low}"),
            vec![el(
              "table",
              &[],
              vec![el("tr", &[], vec![el("td", &[("class", "icon")], vec![icon]), el("td", &[("class", "content")], content)])],
            )],
          ));
        }
        B::Wrap { form, kids } => {
          let inner = self.doms(kids, false);
          out.push(match form {
            0 => div("sidebarblock", vec![div("content", inner)]),
            1 => div("quoteblock", vec![el("blockquote", &[], inner)]),
            _ => div("openblock", vec![div("content", inner)]),
          });
        }
        B::Item(kids) => {
          let inner = self.doms(kids, true);
          out.push(div(
            "ulist",
            vec![el(
              "ul",
              &[],
              vec![el("li", &[], vec![el("p", &[], vec![txt("item")]), div("openblock", vec![div("content", inner)])])],
            )],
          ));
        }
        B::Cell(kids) => {
          // what a cell sets stays in the cell, the numbers go on
          let saved = self.attrs.clone();
          let inner = self.doms(kids, false);
          self.attrs = saved;
          out.push(el(
            "table",
            &[("class", "tableblock frame-all grid-all stretch")],
            vec![
              el("colgroup", &[], vec![el("col", &[("style", "width: 100.00%;")], vec![])]),
              el("tbody", &[], vec![el("tr", &[], vec![el("td", &[("class", "tableblock halign-left valign-top")], vec![div("content", inner)])])]),
            ],
          ));
        }
      }
    }
    let _ = in_item;
    out
  }
}

/// a container does not hold one of its own kind (only example blocks nest, by length)
fn rewrap(v: &mut [B], used: usize) {
  for b in v {
    match b {
      B::Wrap { form, kids } => match (0..3).map(|i| (*form + i) % 3).find(|f| used & (1 << f) == 0) {
        Some(f) => {
          *form = f;
          rewrap(kids, used | 1 << f);
        }
        None => *b = B::Para("full".into()),
      },
      B::Titled { kids, .. } | B::Adm { kids, .. } => rewrap(kids, used),
      B::Item(kids) => rewrap(kids, used | 4),
      B::Cell(kids) => rewrap(kids, 0),
      _ => {}
    }
  }
}

impl Prop for Captions {
  fn id(&self) -> &'static str {
    "C17"
  }
  fn rule(&self) -> &'static str {
    "captions, their numbers and admonition labels equal the ones counted from the generated tree"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 40_000,
      Tier::Thorough => 600_000,
    }
  }
  fn run(&self, cx: &mut Cx) {
    let (job, exp) = make(cx);
    cx.nontrivial(&job.src);
    cx.sample(|| serde_json::json!({"src": job.src}));
    compare(cx, &job, &canon(&exp));
  }
}

/// a document and the DOM it has to have
pub fn make(cx: &mut Cx) -> (Job, Vec<Node>) {
    let mut r = cx.rng.clone();
    let left = r.range(1, 10);
    let mut g = G { r: &mut r, n: 0, left };
    let mut top: Vec<(Option<u32>, Vec<B>)> = vec![(None, vec![])];
    let mut heads: Vec<(&str, Option<&str>)> = vec![];
    for _ in 0..g.r.weighted(&[3, 2, 1, 1]) {
      heads.push(*g.r.pick(SETS));
    }
    while g.left > 0 {
      if g.r.chance(1, 6) {
        let s = *g.r.pick(SETS);
        top.last_mut().unwrap().1.push(B::Set(s.0, s.1));
      }
      if g.r.chance(1, 8) {
        let n = top.len() as u32;
        top.push((Some(n), vec![]));
      }
      let b = g.block(0, false, false);
      top.last_mut().unwrap().1.push(b);
    }
    let mut s = String::new();
    for (k, v) in &heads {
      match v {
        Some(v) => s.push_str(&format!(":{k}: {v}\n")),
        None => s.push_str(&format!(":!{k}:\n")),
      }
    }
    if !s.is_empty() {
      s.push('\n');
    }
    let mut e = E { attrs: BTreeMap::new(), nums: BTreeMap::new() };
    for (k, v) in [
      ("table-caption", "Table"),
      ("figure-caption", "Figure"),
      ("example-caption", "Example"),
      ("note-caption", "Note"),
      ("tip-caption", "Tip"),
      ("important-caption", "Important"),
      ("warning-caption", "Warning"),
      ("caution-caption", "Caution"),
    ] {
      e.attrs.insert(k.into(), Some(v.into()));
    }
    for (k, v) in &heads {
      e.attrs.insert(k.to_string(), v.map(|v| v.to_string()));
    }
    let mut exp = vec![];
    for (n, v) in &mut top {
      rewrap(v, 0);
      if let Some(n) = n {
        s.push_str(&format!("== Part {n}\n\n"));
      }
      src(v, &mut s, 0, false);
      let d = e.doms(v, false);
      match n {
        Some(n) => exp.push(div(
          "sect1",
          vec![el("h2", &[("id", &format!("_part_{n}"))], vec![txt(format!("Part {n}"))]), div("sectionbody", d)],
        )),
        None => exp.extend(d),
      }
    }
    for (k, n) in &e.nums {
      cx.add(&format!("numbered {k:?}"), *n as u64);
    }
    (Job::new(s).strict(), exp)
}
