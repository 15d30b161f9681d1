//! C16: section structure, ids, numbers and table of contents, against an
//! independent calculation from an outline that is never parsed.

use std::collections::BTreeSet;

use crate::conv::Job;
use crate::html::Node;
use crate::model::{canon, div, el, txt};
use crate::orch::*;
use crate::props::modelled::compare;
use crate::rng::Rng;

pub struct Sections;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Nums {
  Off,
  On,
  All,
}

/// a piece of a heading: source, dom, and plain text (what ids are made from)
#[derive(Clone, Debug)]
struct Piece {
  src: String,
  dom: Node,
  plain: String,
}

#[derive(Clone, Debug)]
struct Sec {
  level: u8,
  title: Vec<Piece>,
  id: Option<String>,
  roles: Vec<&'static str>,
  style: Option<&'static str>,
  /// blocks before the first subsection
  body: Vec<Body>,
  subs: Vec<Sec>,
  /// attribute entries written just before
  before: Vec<Entry>,
  /// as seen by the parser at this point
  level0: bool,
}

#[derive(Clone, Debug)]
enum Body {
  Para(String),
  Discrete(u8, Vec<Piece>),
  Toc,
}

#[derive(Clone, Debug)]
enum Entry {
  Sectnums(Nums),
  Sectids(bool),
  Idprefix(Option<&'static str>),
  Idsep(Option<&'static str>),
}

struct Env {
  nums: Nums,
  numlevels: u8,
  ids: bool,
  prefix: Option<&'static str>,
  sep: Option<&'static str>,
  used: BTreeSet<String>,
  anchors: Option<&'static str>,
  links: bool,
  book: bool,
  partnums: bool,
  chapter_sig: Option<&'static str>,
  part_sig: Option<&'static str>,
  appendix_caption: Option<&'static str>,
  /// counters
  chapter: u32,
  part: u32,
  appendix: u32,
}

/// one computed line of the outline
#[derive(Clone, Debug)]
struct Row {
  level: u8,
  id: Option<String>,
  title: Vec<Node>,
  kids: Vec<Row>,
}

const POOL: &[&str] = &[
  "Intro", "overview", "Setup", "API", "2nd", "v1.2", "Alpha-Beta", "Größe", "Données", "élan", "x", "Go", "Ω", "snake_case", "The", "of",
];

fn title(r: &mut Rng) -> Vec<Piece> {
  let n = if r.chance(1, 2) { 1 } else { r.range(2, 4) };
  let mut out = vec![];
  for i in 0..n {
    if i > 0 {
      out.push(Piece { src: " ".into(), dom: txt(" "), plain: " ".into() });
    }
    let w = r.pick_s(POOL);
    let clean = !w.contains('_');
    out.push(match r.below(12) {
      0 if clean => Piece { src: format!("*{w}*"), dom: el("strong", &[], vec![txt(w)]), plain: w.into() },
      1 if clean => Piece { src: format!("_{w}_"), dom: el("em", &[], vec![txt(w)]), plain: w.into() },
      2 if clean => Piece { src: format!("`{w}`"), dom: el("code", &[], vec![txt(w)]), plain: w.into() },
      3 => Piece { src: format!("{w}'s"), dom: txt(format!("{w}\u{2019}s")), plain: format!("{w}s") },
      4 => Piece { src: format!("{w}!"), dom: txt(format!("{w}!")), plain: w.into() },
      5 => Piece { src: format!("({w})"), dom: txt(format!("({w})")), plain: w.into() },
      6 if i > 0 && i + 1 < n => Piece { src: "&".into(), dom: txt("&"), plain: String::new() },
      _ => Piece { src: w.into(), dom: txt(w), plain: w.into() },
    });
  }
  out
}

fn roles(r: &mut Rng) -> Vec<&'static str> {
  match r.below(8) {
    0 => vec!["red"],
    1 => vec!["wide", "dark"],
    _ => vec![],
  }
}

struct G<'a> {
  r: &'a mut Rng,
  ids: usize,
  /// what automatic ids may be made of
  seen: BTreeSet<String>,
  budget: usize,
  toggles: bool,
  macro_toc: bool,
  /// ids may be switched off (not with a contents list, which needs them)
  idless: bool,
}

impl G<'_> {
  fn title(&mut self) -> Vec<Piece> {
    let t = title(self.r);
    self.seen.insert(t.iter().map(|p| p.plain.as_str()).collect::<String>().to_lowercase().replace(|c: char| !c.is_alphanumeric(), ""));
    t
  }
  fn body(&mut self, level: u8) -> Vec<Body> {
    let n = self.r.weighted(&[3, 4, 1]);
    let mut out: Vec<Body> = (0..n).map(|i| Body::Para(format!("text {i} of it"))).collect();
    if self.r.chance(1, 12) {
      let l = if level < 5 { self.r.range(1, 5) as u8 } else { 5 };
      let t = self.title();
      out.push(Body::Discrete(l, t));
    }
    if self.macro_toc && self.r.chance(1, 3) {
      self.macro_toc = false;
      out.push(Body::Toc);
    }
    out
  }
  fn entries(&mut self) -> Vec<Entry> {
    let mut v = vec![];
    if !self.toggles {
      return v;
    }
    if self.r.chance(1, 3) {
      v.push(Entry::Sectnums(*self.r.pick(&[Nums::Off, Nums::On, Nums::On, Nums::All])));
    }
    if self.idless && self.r.chance(1, 10) {
      v.push(Entry::Sectids(self.r.chance(1, 2)));
    }
    if self.r.chance(1, 12) {
      v.push(Entry::Idprefix(*self.r.pick(&[Some(""), Some("sect"), Some("_")])));
    }
    if self.r.chance(1, 12) {
      v.push(Entry::Idsep(*self.r.pick(&[Some(""), Some("-"), Some("."), Some("_")])));
    }
    v
  }
  fn sec(&mut self, level: u8, special: Option<&'static str>) -> Sec {
    self.budget = self.budget.saturating_sub(1);
    let id = self.r.chance(1, 8).then(|| {
      // at times one that a later title would get
      let w = *self.r.pick(&["intro", "overview", "setup", "api", "go", "the"]);
      if self.r.chance(1, 3) && self.seen.insert(w.into()) {
        return format!("{}{w}", self.r.pick_s(&["_", "_", "", "sect"]));
      }
      self.ids += 1;
      format!("own-{}", self.ids)
    });
    let title = self.title();
    let mut s = Sec {
      level,
      title,
      id,
      roles: roles(self.r),
      style: special,
      body: vec![],
      subs: vec![],
      before: vec![],
      level0: false,
    };
    if level <= 1 {
      s.before = self.entries();
    }
    s.body = self.body(level);
    // only these special sections may hold subsections
    let may = matches!(special, None | Some("appendix") | Some("preface") | Some("abstract"));
    let may = may && special != Some("abstract");
    if level < 5 && may {
      let p = [0, 3, 3, 2, 1][level as usize];
      while self.budget > 0 && self.r.chance(p, 5) {
        let k = self.sec(level + 1, None);
        s.subs.push(k);
      }
    }
    s
  }
}

fn roman(mut n: u32) -> String {
  let mut s = String::new();
  for (v, c) in [(10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")] {
    while n >= v {
      s.push_str(c);
      n -= v;
    }
  }
  s
}

impl Env {
  fn gen_id(&self, plain: &str) -> String {
    let sep = self.sep.unwrap_or("_");
    let prefix = self.prefix.unwrap_or("_");
    let lower = plain.to_lowercase();
    let mut id = String::from(prefix);
    for c in lower.chars() {
      if sep.is_empty() {
        if c.is_alphanumeric() || matches!(c, '_' | '-' | '.') {
          id.push(c);
        }
      } else if c == ' ' || c == '-' || c == '.' || sep.starts_with(c) {
        id.push('\u{1}');
      } else if c.is_alphanumeric() || c == '_' {
        id.push(c);
      }
    }
    if !sep.is_empty() {
      let mut sq = String::new();
      for c in id.chars() {
        let c = if c == '\u{1}' || sep.starts_with(c) || (c == '-' || c == '.') { sep.chars().next().unwrap() } else { c };
        if !(sep.starts_with(c) && sq.ends_with(c)) {
          sq.push(c);
        }
      }
      id = sq;
      if id.ends_with(sep) {
        id.pop();
      }
      if prefix.is_empty() && id.starts_with(sep) {
        id.remove(0);
      }
    }
    if self.used.contains(&id) {
      let mut n = 2;
      while self.used.contains(&format!("{id}{sep}{n}")) {
        n += 1;
      }
      id = format!("{id}{sep}{n}");
    }
    id
  }
  fn id_of(&mut self, own: &Option<String>, title: &[Piece]) -> Option<String> {
    let id = match own {
      Some(i) => i.clone(),
      None if !self.ids => return None,
      None => self.gen_id(&title.iter().map(|p| p.plain.as_str()).collect::<String>()),
    };
    self.used.insert(id.clone());
    Some(id)
  }
  fn apply(&mut self, e: &Entry) {
    match e {
      Entry::Sectnums(n) => self.nums = *n,
      Entry::Sectids(b) => self.ids = *b,
      Entry::Idprefix(p) => self.prefix = *p,
      Entry::Idsep(p) => self.sep = *p,
    }
  }
}

struct Walk {
  env: Env,
}

impl Walk {
  /// `num`: numerals of the numbered ancestors (level 1 first)
  fn sec(&mut self, s: &Sec, parent_num: &str, parent_special: bool, parent_numbered: bool, ord: &mut u32, out: &mut Vec<Node>) -> Row {
    for e in &s.before {
      self.env.apply(e);
    }
    let id = self.env.id_of(&s.id, &s.title);
    let special = s.style.is_some() && !(self.env.book && s.style == Some("abstract"));
    let numbered = if s.style == Some("appendix") {
      true
    } else if special {
      self.env.nums == Nums::All
    } else if self.env.nums != Nums::Off && s.level > 0 {
      if parent_special { parent_numbered } else { true }
    } else {
      s.level == 0 && self.env.partnums
    };
    let mut prefix = String::new();
    let mut my_num = String::new();
    if s.style == Some("appendix") {
      let letter = (b'A' + self.env.appendix as u8) as char;
      self.env.appendix += 1;
      my_num = format!("{letter}.");
      prefix = match self.env.appendix_caption {
        Some(c) => format!("{c} {letter}: "),
        None => format!("{letter}. "),
      };
    } else if numbered && s.level == 0 {
      self.env.part += 1;
      prefix = format!("{}{}: ", self.env.part_sig.map(|p| format!("{p} ")).unwrap_or_default(), roman(self.env.part));
    } else if numbered {
      let n = if s.level == 1 && self.env.book {
        self.env.chapter += 1;
        self.env.chapter
      } else {
        *ord += 1;
        *ord
      };
      my_num = format!("{}{n}.", if s.level > 1 { parent_num } else { "" });
      if s.level <= self.env.numlevels {
        let chapter = s.level == 1 && self.env.book;
        let sig = if chapter { self.env.chapter_sig.map(|c| format!("{c} ")).unwrap_or_default() } else { String::new() };
        prefix = format!("{sig}{my_num} ");
      }
    }
    let mut t: Vec<Node> = vec![];
    if !prefix.is_empty() {
      t.push(txt(prefix));
    }
    t.extend(s.title.iter().map(|p| p.dom.clone()));

    // heading
    let mut h = t.clone();
    let mut hattrs: Vec<(&str, String)> = vec![];
    if let Some(i) = &id {
      hattrs.push(("id", i.clone()));
      if self.env.links {
        h = vec![el("a", &[("class", "link"), ("href", &format!("#{i}"))], h)];
      }
      if self.env.anchors.is_some() {
        h.insert(0, el("a", &[("class", "anchor"), ("href", &format!("#{i}"))], vec![]));
      }
    }
    let mut kids = vec![];
    let body_start = kids.len();
    self.blocks(&s.body, &mut kids);
    let _ = body_start;
    let mut row = Row { level: s.level, id, title: t, kids: vec![] };
    let mut sub_ord = 0;
    for k in &s.subs {
      let r = self.sec(k, &my_num, special || parent_special, numbered, &mut sub_ord, &mut kids);
      row.kids.push(r);
    }
    if s.level == 0 {
      let cls = std::iter::once("sect0").chain(s.roles.iter().copied()).collect::<Vec<_>>().join(" ");
      hattrs.push(("class", cls));
      let a: Vec<(&str, &str)> = hattrs.iter().map(|(k, v)| (*k, v.as_str())).collect();
      out.push(el("h1", &a, t_h(&self.env, &row)));
      let n_intro = s.body.len();
      if n_intro > 0 {
        let rest = kids.split_off(n_intro);
        out.push(div("openblock partintro", vec![div("content", kids)]));
        out.extend(rest);
      } else {
        out.extend(kids);
      }
      return row;
    }
    let a: Vec<(&str, &str)> = hattrs.iter().map(|(k, v)| (*k, v.as_str())).collect();
    let head = el(&format!("h{}", s.level + 1), &a, h);
    let cls = std::iter::once(format!("sect{}", s.level)).chain(s.roles.iter().map(|r| r.to_string())).collect::<Vec<_>>().join(" ");
    let inner = if s.level == 1 { vec![head, div("sectionbody", kids)] } else { std::iter::once(head).chain(kids).collect() };
    out.push(div(&cls, inner));
    row
  }
  fn blocks(&mut self, v: &[Body], out: &mut Vec<Node>) {
    for b in v {
      match b {
        Body::Para(p) => out.push(div("paragraph", vec![el("p", &[], vec![txt(p.as_str())])])),
        Body::Discrete(l, t) => {
          let id = self.env.id_of(&None, t);
          let tag = format!("h{}", l + 1);
          let kids = t.iter().map(|p| p.dom.clone()).collect();
          out.push(match &id {
            Some(i) => el(&tag, &[("id", i), ("class", "discrete")], kids),
            None => el(&tag, &[("class", "discrete")], kids),
          });
        }
        Body::Toc => out.push(el("x-toc", &[], vec![])),
      }
    }
  }
}

/// a part's title is shown without links or anchors by this converter
fn t_h(_: &Env, row: &Row) -> Vec<Node> {
  row.title.clone()
}

fn outline(rows: &[Row], toclevels: u8) -> Option<Node> {
  let first = rows.first()?;
  let mut lis = vec![];
  for r in rows {
    let href = format!("#{}", r.id.clone().unwrap_or_default());
    let mut kids = vec![el("a", &[("href", &href)], r.title.clone())];
    if r.level < toclevels {
      kids.extend(outline(&r.kids, toclevels));
    }
    lis.push(el("li", &[], kids));
  }
  Some(el("ul", &[("class", &format!("sectlevel{}", first.level))], lis))
}

fn replace_toc(nodes: &mut Vec<Node>, with: &Option<Node>) {
  let mut i = 0;
  while i < nodes.len() {
    if matches!(&nodes[i], Node::El(e) if e.tag == "x-toc") {
      match with {
        Some(t) => nodes[i] = t.clone(),
        None => {
          nodes.remove(i);
          continue;
        }
      }
    } else if let Node::El(e) = &mut nodes[i] {
      replace_toc(&mut e.kids, with);
    }
    i += 1;
  }
}

fn piece_src(t: &[Piece]) -> String {
  t.iter().map(|p| p.src.as_str()).collect()
}

fn entry_src(e: &Entry) -> String {
  match e {
    Entry::Sectnums(Nums::Off) => ":sectnums!:".into(),
    Entry::Sectnums(Nums::On) => ":sectnums:".into(),
    Entry::Sectnums(Nums::All) => ":sectnums: all".into(),
    Entry::Sectids(true) => ":sectids:".into(),
    Entry::Sectids(false) => ":!sectids:".into(),
    Entry::Idprefix(Some(p)) => format!(":idprefix: {p}").trim_end().into(),
    Entry::Idprefix(None) => ":idprefix!:".into(),
    Entry::Idsep(Some(p)) => format!(":idseparator: {p}").trim_end().into(),
    Entry::Idsep(None) => ":idseparator!:".into(),
  }
}

struct Src<'a> {
  r: &'a mut Rng,
  out: String,
}

impl Src<'_> {
  fn blocks(&mut self, v: &[Body], style: bool) {
    for b in v {
      match b {
        Body::Para(p) => self.out.push_str(&format!("{p}\n\n")),
        Body::Discrete(l, t) => {
          let st = if self.r.chance(1, 4) { "float" } else { "discrete" };
          self.out.push_str(&format!("[{st}]\n{} {}\n\n", "=".repeat(*l as usize + 1), piece_src(t)))
        }
        Body::Toc => self.out.push_str("toc::[]\n\n"),
      }
    }
    let _ = style;
  }
  fn sec(&mut self, s: &Sec) {
    for e in &s.before {
      self.out.push_str(&entry_src(e));
      self.out.push('\n');
    }
    if !s.before.is_empty() {
      self.out.push('\n');
    }
    let style = s.style.unwrap_or("");
    let roles: String = s.roles.iter().map(|r| format!(".{r}")).collect();
    match (&s.id, self.r.below(3)) {
      (Some(id), 0) => {
        if !style.is_empty() || !roles.is_empty() {
          self.out.push_str(&format!("[{style}{roles}]\n"));
        }
        self.out.push_str(&format!("[[{id}]]\n"));
      }
      (Some(id), 1) => self.out.push_str(&format!("[{style}{roles}#{id}]\n")),
      (Some(id), _) => self.out.push_str(&format!("[{style}#{id}{roles}]\n")),
      (None, _) if style.is_empty() && roles.is_empty() => {}
      (None, _) => self.out.push_str(&format!("[{style}{roles}]\n")),
    }
    let level = if s.level0 { 0 } else { s.level };
    let mark = if self.r.chance(1, 10) && level > 0 { "#" } else { "=" };
    self.out.push_str(&format!("{} {}\n", mark.repeat(level as usize + 1), piece_src(&s.title)));
    if s.body.is_empty() || self.r.chance(4, 5) || matches!(s.body[0], Body::Discrete(..) | Body::Toc) {
      self.out.push('\n');
    }
    self.blocks(&s.body, true);
    for k in &s.subs {
      self.sec(k);
    }
  }
}

impl Prop for Sections {
  fn id(&self) -> &'static str {
    "C16"
  }
  fn rule(&self) -> &'static str {
    "the HTML of a generated outline equals the one computed from the outline (structure, ids, numbers, captions, contents list)"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 40_000,
      Tier::Thorough => 600_000,
    }
  }
  fn run(&self, cx: &mut Cx) {
    let (job, exp) = make(cx);
    cx.nontrivial(&job.src);
    cx.sample(|| serde_json::json!({"src": job.src}));
    compare(cx, &job, &canon(&exp));
  }
}

/// a document and the DOM it has to have
pub fn make(cx: &mut Cx) -> (Job, Vec<Node>) {
    let mut r = cx.rng.clone();
    let book = r.chance(1, 3);
    let parts = book && r.chance(2, 3);
    let has_title = r.chance(2, 3) || book;
    let nums = *r.pick(&[Nums::Off, Nums::On, Nums::On, Nums::On, Nums::All]);
    let toc = *r.pick(&["", "", "auto", "auto", "bare", "left", "right", "preamble", "macro"]);
    let toclevels: Option<u8> = r.chance(1, 2).then(|| r.range(1, 5) as u8);
    let toc_title = if r.chance(1, 4) { Some("In & out") } else { None };
    let numlevels: Option<u8> = r.chance(1, 3).then(|| r.range(0, 5) as u8);
    let toggles = r.chance(1, 3);
    let size = r.range(1, 12);
    let macro_toc = toc == "macro";
    let mut g = G { r: &mut r, ids: 0, seen: BTreeSet::new(), budget: size, toggles, macro_toc, idless: toc.is_empty() };
    let mut preamble: Vec<Body> = if g.r.chance(1, 2) { g.body(0).into_iter().filter(|b| !matches!(b, Body::Discrete(..))).collect() } else { vec![] };
    let mut secs = vec![];
    let specials: &[&'static str] = if book {
      &["appendix", "glossary", "index", "colophon", "preface", "dedication", "acknowledgments"]
    } else {
      &["appendix", "abstract", "glossary", "index"]
    };
    if parts {
      while g.budget > 0 || secs.is_empty() {
        let mut p = g.sec(0, None);
        p.body.retain(|b| !matches!(b, Body::Discrete(..)));
        loop {
          let sp = g.r.chance(1, 8).then(|| g.r.pick_s(specials));
          let k = g.sec(1, sp);
          p.subs.push(k);
          if g.budget == 0 || g.r.chance(1, 3) {
            break;
          }
        }
        secs.push(p);
      }
      for _ in 0..g.r.weighted(&[3, 2, 1]) {
        let sp = g.r.pick_s(specials);
        let mut k = g.sec(1, Some(sp));
        k.level0 = true;
        secs.push(k);
      }
    } else {
      while g.budget > 0 || secs.is_empty() {
        let sp = g.r.chance(1, 6).then(|| g.r.pick_s(specials));
        let k = g.sec(1, sp);
        secs.push(k);
      }
    }
    let mut toc = toc;
    if toc == "macro" && g.macro_toc {
      preamble.push(Body::Toc);
    }
    if toc == "preamble" && (preamble.is_empty() || !has_title) {
      toc = "auto";
    }
    // header
    let anchors = if r.chance(1, 6) { Some("") } else { None };
    let links = r.chance(1, 6);
    let mut head: Vec<String> = vec![];
    if book {
      head.push(":doctype: book".into());
    }
    match nums {
      Nums::Off => {}
      Nums::On => head.push(":sectnums:".into()),
      Nums::All => head.push(":sectnums: all".into()),
    }
    match toc {
      "" => {}
      "bare" => head.push(":toc:".into()),
      t => head.push(format!(":toc: {t}")),
    }
    if let Some(l) = toclevels {
      head.push(format!(":toclevels: {l}"));
    }
    if let Some(t) = toc_title {
      head.push(format!(":toc-title: {t}"));
    }
    if let Some(l) = numlevels {
      head.push(format!(":sectnumlevels: {l}"));
    }
    if anchors.is_some() {
      head.push(":sectanchors:".into());
    }
    if links {
      head.push(":sectlinks:".into());
    }
    let appendix_caption = match r.below(4) {
      0 => {
        head.push(":appendix-caption: Annex".into());
        Some("Annex")
      }
      1 => {
        head.push(":!appendix-caption:".into());
        None
      }
      _ => Some("Appendix"),
    };
    let mut prefix = None;
    if r.chance(1, 5) {
      let p = r.pick_s(&["", "id_", "sect"]);
      head.push(format!(":idprefix: {p}").trim_end().into());
      prefix = Some(p);
    }
    let mut sep = None;
    if r.chance(1, 5) {
      let p = r.pick_s(&["", "-", ".", "_"]);
      head.push(format!(":idseparator: {p}").trim_end().into());
      sep = Some(p);
    }
    let mut ids = true;
    if toc.is_empty() && r.chance(1, 12) {
      head.push(":sectids!:".into());
      ids = false;
    }
    let mut partnums = false;
    let mut chapter_sig = None;
    let mut part_sig = None;
    if book {
      if r.chance(1, 2) {
        head.push(":partnums:".into());
        partnums = true;
      }
      if r.chance(1, 3) {
        head.push(":chapter-signifier: Chapter".into());
        chapter_sig = Some("Chapter");
      }
      if r.chance(1, 3) {
        head.push(":part-signifier: Part".into());
        part_sig = Some("Part");
      }
    }
    r.shuffle(&mut head);
    head.sort_by_key(|h| !h.contains("doctype"));
    let mut job_attrs = vec![];
    // some settings come from the caller instead
    head.retain(|h| {
      if r.chance(1, 10) && !h.contains("doctype") && !h.contains("idprefix") && !h.contains("idsep") && !toggles {
        job_attrs.push(h.clone());
        false
      } else {
        true
      }
    });
    let mut src = String::new();
    if has_title {
      src.push_str("= Book of It\n");
    }
    for h in &head {
      src.push_str(h);
      src.push('\n');
    }
    if !src.is_empty() {
      src.push('\n');
    }
    let mut w = Src { r: &mut r, out: src };
    w.blocks(&preamble, false);
    for s in &secs {
      w.sec(s);
    }
    let src = w.out;

    // what must come out
    let env = Env {
      nums,
      numlevels: numlevels.unwrap_or(3),
      ids,
      prefix,
      sep,
      used: BTreeSet::new(),
      anchors,
      links,
      book,
      partnums,
      chapter_sig,
      part_sig,
      appendix_caption,
      chapter: 0,
      part: 0,
      appendix: 0,
    };
    let mut wk = Walk { env };
    let mut pre = vec![];
    wk.blocks(&preamble, &mut pre);
    let mut body = vec![];
    let mut rows = vec![];
    let mut ord = 0;
    for s in &secs {
      let row = wk.sec(s, "", false, false, &mut ord, &mut body);
      rows.push(row);
    }
    let tl = toclevels.unwrap_or(2);
    let list = outline(&rows, tl);
    let toc_node = |mac: bool| {
      let head = if mac {
        el("div", &[("id", "toctitle"), ("class", "title")], vec![txt(toc_title.unwrap_or("Table of Contents"))])
      } else {
        el("div", &[("id", "toctitle")], vec![txt(toc_title.unwrap_or("Table of Contents"))])
      };
      let mut kids = vec![head];
      kids.extend(list.clone());
      el("div", &[("id", "toc"), ("class", "toc")], kids)
    };
    let mut exp = vec![];
    if matches!(toc, "auto" | "bare" | "left" | "right") {
      exp.push(toc_node(false));
    }
    if !pre.is_empty() {
      if has_title {
        let mut k = vec![div("sectionbody", pre)];
        if toc == "preamble" {
          k.push(toc_node(false));
        }
        exp.push(el("div", &[("id", "preamble")], k));
      } else {
        exp.extend(pre);
      }
    }
    exp.extend(body);
    replace_toc(&mut exp, &(toc == "macro").then(|| toc_node(true)));

    let mut job = Job::new(src.clone()).strict();
    for a in &job_attrs {
      let a = a.trim_start_matches(':');
      let (k, v) = a.split_once(':').unwrap();
      let v = v.trim();
      if let Some(k) = k.strip_suffix('!').or(k.strip_prefix('!')) {
        job = job.attr(k, false);
      } else if v.is_empty() {
        job = job.attr(k, true);
      } else {
        job = job.attr(k, v);
      }
    }
    cx.count(if parts { "multipart" } else if book { "book" } else { "article" });
    cx.count(&format!("toc {toc}"));
    cx.count(match nums {
      Nums::Off => "sectnums off",
      Nums::On => "sectnums on",
      Nums::All => "sectnums all",
    });
    if toggles {
      cx.count("toggled mid-document");
    }
    (job, exp)
}
