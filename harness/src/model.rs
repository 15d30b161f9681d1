//! A structured document model with two independent renderers: one writes the
//! AsciiDoc source, the other builds the DOM the asciidoctor-compatible HTML
//! backend must produce for it. The second one is the reference converter: it
//! never sees AsciiDoc text, so it shares nothing with the code under test.

use std::collections::BTreeMap;

use crate::html::{El, Node};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum F {
  Bold,
  Ital,
  Mono,
  Hi,
  Sub,
  Sup,
}

#[derive(Clone, Debug, PartialEq)]
pub enum In {
  /// plain text without markup
  Txt(String),
  /// inter-word blank; true = line break in the source
  Sp(bool),
  Fmt { f: F, uncon: bool, id: Option<String>, roles: Vec<String>, kids: Vec<In> },
  /// `+text+`
  LitMono(String),
  /// +text+ : text shown as is, special chars escaped
  PassTxt(String),
  /// pass:[..] / +++..+++ : raw html
  RawPass(String, bool),
  Link { url: String, text: Option<Vec<In>>, role: Option<String>, blank: bool, mac: bool, x: LinkX },
  /// `more`: subject and body
  Mail { addr: String, text: Option<Vec<In>>, more: [Option<String>; 2] },
  Xref { id: String, text: Option<Vec<In>>, mac: bool },
  Foot { id: Option<String>, kids: Vec<In> },
  FootRef(String),
  Anchor(String, bool),
  AttrRef(String, String),
  Img { target: String, alt: Option<String>, w: Option<u32>, roles: Vec<String> },
  Kbd(Vec<String>),
  Btn(String),
  Menu(String, Vec<String>),
  IdxVis(Vec<In>, bool),
  IdxHid(Vec<String>),
  /// hard line break: ` +\n`
  Br,
  Dq(Vec<In>),
  Sq(Vec<In>),
  /// (source, text)
  Sym(&'static str, &'static str),
  /// text that is backslash-escaped in the source: (source, text)
  Esc(String, String),
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Meta {
  pub id: Option<String>,
  pub reftext: Option<String>,
  pub title: Option<Vec<In>>,
  pub roles: Vec<String>,
  /// 0: `[#id.role]`  1: `[[id]]` + `[.role]`  2: `[id=..,role="a b"]`
  pub form: u8,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
  Para(Vec<In>),
  /// literal paragraph (indented)
  LitPara(Vec<String>),
  Listing { style: u8, lang: Option<String>, lines: Vec<String> },
  Literal { lines: Vec<String>, style: u8 },
  RawBlock(String),
  Container { k: C, attr: Option<String>, cite: Option<String>, collapsible: u8, kids: Vec<Blk> },
  /// NOTE: text
  AdmPara(usize, Vec<In>),
  AdmBlock(usize, Vec<Blk>, C),
  /// styled paragraph: [example]/[sidebar]/[quote]
  Verse { attr: Option<String>, cite: Option<String>, lines: Vec<Vec<In>>, delim: bool },
  Ulist(UList),
  Olist(OList),
  Dlist(DList),
  Table(Tbl),
  Image { target: String, alt: Option<String>, w: Option<u32>, h: Option<u32>, link: Option<String> },
  /// paragraph with an attribution: 0 in quotes, 1 markdown, 2 `[abstract]`
  Quoted { form: u8, text: Vec<In>, attr: Option<String>, cite: Option<String> },
  /// list of bibliography entries: id, label, text
  Biblio(Vec<(String, Option<String>, Vec<In>)>),
  Break,
  PageBreak,
  Discrete(u8, Vec<In>),
  /// invisible: comment line / block / attribute entry (raw source)
  Hidden(String),
  /// listing with callouts, followed by its callout list
  Callouts { lines: Vec<(String, Vec<u32>)>, items: Vec<Vec<In>>, auto: bool },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum C {
  Example,
  Sidebar,
  Quote,
  Open,
}

pub const ADM: [&str; 5] = ["NOTE", "TIP", "IMPORTANT", "WARNING", "CAUTION"];
pub const ADM_T: [&str; 5] = ["Note", "Tip", "Important", "Warning", "Caution"];
pub const ADM_C: [&str; 5] = ["note", "tip", "important", "warning", "caution"];

#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
  pub meta: Meta,
  pub kind: Kind,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
  pub text: Vec<In>,
  pub check: Option<bool>,
  /// nested lists directly in the item, then attached blocks
  pub nested: Vec<Blk>,
  pub attached: Vec<Blk>,
  /// attached blocks come before the nested lists
  pub att_first: bool,
  pub blank_after: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct UList {
  pub dash: bool,
  pub depth: usize,
  pub style: Option<&'static str>,
  pub interactive: bool,
  pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct OList {
  /// depth of the `.` marker
  pub depth: usize,
  /// number of enclosing ordered lists + 1: the visual style
  pub visual: usize,
  pub start: Option<u32>,
  pub style: Option<&'static str>,
  pub reversed: bool,
  /// explicit numbers `1. 2.` as the marker
  pub explicit: bool,
  pub items: Vec<Item>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DItem {
  pub terms: Vec<Vec<In>>,
  pub text: Option<Vec<In>>,
  /// text on the following line
  pub below: bool,
  pub nested: Vec<Blk>,
  pub attached: Vec<Blk>,
  pub blank_after: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct DList {
  /// `::`, `:::`, `::::`, `;;`
  pub marker: usize,
  /// 0 plain 1 horizontal 2 qanda
  pub style: u8,
  pub items: Vec<DItem>,
}

pub const DMARK: [&str; 4] = ["::", ":::", "::::", ";;"];

#[derive(Clone, Debug, PartialEq)]
pub struct Cell {
  pub paras: Vec<Vec<In>>,
  /// d, e, s, m, h, l, a
  pub style: Option<char>,
  pub halign: Option<char>,
  pub valign: Option<char>,
  pub colspan: u32,
  pub rowspan: u32,
  pub lit: Vec<String>,
  pub blocks: Vec<Blk>,
  /// number of copies this cell and the following are written as: 0 = a copy
  pub dup: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tbl {
  /// p, c, t or d
  pub format: char,
  /// format given by the delimiter
  pub by_delim: bool,
  /// columns of automatic width
  pub col_auto: Vec<bool>,
  /// how the column specs are written
  pub cols_form: u8,
  /// a blank line after the first row, but no header
  pub noheader: bool,
  pub widths: Vec<u32>,
  pub col_style: Vec<Option<char>>,
  pub col_h: Vec<Option<char>>,
  pub col_v: Vec<Option<char>>,
  pub header: bool,
  pub footer: bool,
  /// header by blank line rather than option
  pub implicit_header: bool,
  pub rows: Vec<Vec<Cell>>,
  /// how many cells per source line: 0 = a row per line, 1 = a cell per line
  pub layout: u8,
  pub sep: char,
  pub frame: Option<&'static str>,
  pub grid: Option<&'static str>,
  pub stripes: Option<&'static str>,
  pub float: Option<&'static str>,
  pub width: Option<u32>,
  pub autowidth: bool,
  pub explicit_cols: bool,
  pub nested: bool,
}

/// further attributes of a link
#[derive(Clone, Debug, Default, PartialEq)]
pub struct LinkX {
  pub id: Option<String>,
  pub title: Option<String>,
  pub window: Option<&'static str>,
  pub nofollow: bool,
  pub noopener: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sect {
  pub level: u8,
  pub title: Vec<In>,
  /// explicit id; auto id otherwise
  pub id: Option<String>,
  pub roles: Vec<String>,
  pub blocks: Vec<Blk>,
  pub subs: Vec<Sect>,
  pub setext: bool,
  pub reftext: Option<String>,
  /// how id and reference text are written
  pub form: u8,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Doc {
  pub title: Option<Vec<In>>,
  pub attrs: Vec<(String, String)>,
  pub preamble: Vec<Blk>,
  pub sects: Vec<Sect>,
}

// ---------------------------------------------------------------- rendering to AsciiDoc

pub fn plain(v: &[In]) -> String {
  let mut s = String::new();
  for i in v {
    match i {
      In::Txt(t) => s.push_str(t),
      In::Sp(_) => s.push(' '),
      In::Fmt { kids, .. } => s.push_str(&plain(kids)),
      In::LitMono(t) | In::PassTxt(t) => s.push_str(t),
      In::Sym(_, t) => s.push_str(t),
      In::AttrRef(_, v) => s.push_str(v),
      In::Dq(k) => s.push_str(&format!("\u{201c}{}\u{201d}", plain(k))),
      In::Sq(k) => s.push_str(&format!("\u{2018}{}\u{2019}", plain(k))),
      In::Esc(_, t) => s.push_str(t),
      _ => {}
    }
  }
  s
}

pub fn src_inl(v: &[In], one_line: bool) -> String {
  let mut s = String::new();
  for i in v {
    match i {
      In::Txt(t) => s.push_str(t),
      In::Sp(nl) => s.push(if *nl && !one_line { '\n' } else { ' ' }),
      In::Fmt { f, uncon, id, roles, kids } => {
        let m = match f {
          F::Bold => "*",
          F::Ital => "_",
          F::Mono => "`",
          F::Hi => "#",
          F::Sub => "~",
          F::Sup => "^",
        };
        let m = if *uncon { m.repeat(2) } else { m.to_string() };
        if id.is_some() || !roles.is_empty() {
          s.push('[');
          if let Some(id) = id {
            s.push('#');
            s.push_str(id);
          }
          for r in roles {
            s.push('.');
            s.push_str(r);
          }
          s.push(']');
        }
        s.push_str(&m);
        s.push_str(&src_inl(kids, one_line));
        s.push_str(&m);
      }
      In::LitMono(t) => s.push_str(&format!("`+{t}+`")),
      In::PassTxt(t) => s.push_str(&format!("+{t}+")),
      In::RawPass(t, mac) => s.push_str(&if *mac { format!("pass:[{t}]") } else { format!("+++{t}+++") }),
      In::Link { url, text, role, blank, mac, x } => {
        if *mac {
          s.push_str("link:");
        }
        s.push_str(url);
        if text.is_some() || *mac || role.is_some() || *blank || *x != LinkX::default() {
          s.push('[');
          if let Some(t) = text {
            s.push_str(&src_inl(t, true));
          }
          if *blank {
            s.push('^');
          }
          if let Some(r) = role {
            s.push_str(&format!(",role={r}"));
          }
          let mut more = vec![];
          if let Some(i) = &x.id {
            more.push(format!("id={i}"));
          }
          if let Some(w) = x.window {
            more.push(format!("window={w}"));
          }
          match (x.nofollow, x.noopener) {
            (true, true) => more.push("opts=\"nofollow,noopener\"".into()),
            (true, false) => more.push("opts=nofollow".into()),
            (false, true) => more.push("opts=noopener".into()),
            _ => {}
          }
          if let Some(t) = &x.title {
            more.push(format!("title=\"{t}\""));
          }
          if !more.is_empty() {
            if !s.ends_with('[') {
              s.push(',');
            }
            s.push_str(&more.join(","));
          }
          s.push(']');
        }
      }
      In::Mail { addr, text, more } => match text {
        None if *more == [None, None] => s.push_str(addr),
        _ => {
          s.push_str(&format!("mailto:{addr}[{}", src_inl(text.as_deref().unwrap_or_default(), true)));
          let quoted = |v: &String| if v.contains(',') { format!("\"{v}\"") } else { v.clone() };
          match more {
            [None, None] => {}
            [Some(a), None] => s.push_str(&format!(",{}", quoted(a))),
            [a, Some(b)] => s.push_str(&format!(",{},{}", a.as_ref().map(quoted).unwrap_or_default(), quoted(b))),
          }
          s.push(']');
        }
      },
      In::Xref { id, text, mac } => {
        let t = text.as_ref().map(|t| src_inl(t, true));
        if *mac {
          s.push_str(&format!("xref:{id}[{}]", t.unwrap_or_default()));
        } else {
          match t {
            Some(t) => s.push_str(&format!("<<{id},{t}>>")),
            None => s.push_str(&format!("<<{id}>>")),
          }
        }
      }
      In::Foot { id, kids } => s.push_str(&format!("footnote:{}[{}]", id.as_deref().unwrap_or(""), src_inl(kids, true))),
      In::FootRef(id) => s.push_str(&format!("footnote:{id}[]")),
      In::Anchor(id, mac) => s.push_str(&if *mac { format!("anchor:{id}[]") } else { format!("[[{id}]]") }),
      In::AttrRef(n, _) => s.push_str(&format!("{{{n}}}")),
      In::Img { target, alt, w, roles } => {
        let mut a = alt.clone().unwrap_or_default();
        if let Some(w) = w {
          a.push_str(&format!(",{w}"));
        }
        if !roles.is_empty() {
          if !a.is_empty() {
            a.push(',');
          }
          a.push_str(&format!("role=\"{}\"", roles.join(" ")));
        }
        s.push_str(&format!("image:{target}[{a}]"));
      }
      In::Kbd(k) => s.push_str(&format!("kbd:[{}]", k.join("+"))),
      In::Btn(t) => s.push_str(&format!("btn:[{t}]")),
      In::Menu(m, items) => s.push_str(&format!("menu:{m}[{}]", items.join(" > "))),
      In::IdxVis(k, mac) => s.push_str(&if *mac {
        format!("indexterm2:[{}]", src_inl(k, true))
      } else {
        format!("(({}))", src_inl(k, true))
      }),
      In::IdxHid(k) => s.push_str(&format!("((({})))", k.join(", "))),
      In::Br => s.push_str(" +\n"),
      In::Dq(k) => s.push_str(&format!("\"`{}`\"", src_inl(k, one_line))),
      In::Sq(k) => s.push_str(&format!("'`{}`'", src_inl(k, one_line))),
      In::Sym(src, _) => s.push_str(src),
      In::Esc(src, _) => s.push_str(src),
    }
  }
  s
}

fn meta_lines(m: &Meta, style: &str, extra: &[String], out: &mut String) {
  if let Some(t) = &m.title {
    out.push('.');
    out.push_str(&src_inl(t, true));
    out.push('\n');
  }
  let mut id = m.id.clone();
  let mut roles = m.roles.clone();
  let mut named = vec![];
  if m.form == 1 || m.reftext.is_some() {
    if let Some(i) = id.take() {
      match &m.reftext {
        Some(r) => out.push_str(&format!("[[{i},{r}]]\n")),
        None => out.push_str(&format!("[[{i}]]\n")),
      }
    }
  } else if m.form == 2 {
    if let Some(i) = id.take() {
      named.push(format!("id={i}"));
    }
    if !roles.is_empty() {
      named.push(format!("role=\"{}\"", roles.join(" ")));
      roles.clear();
    }
  }
  let mut first = style.to_string();
  if let Some(i) = &id {
    first.push('#');
    first.push_str(i);
  }
  for r in &roles {
    first.push('.');
    first.push_str(r);
  }
  let mut parts = vec![];
  if !first.is_empty() {
    parts.push(first);
  } else if !extra.is_empty() && !extra[0].contains('=') && !extra[0].starts_with('%') {
    parts.push(String::new());
  }
  parts.extend(extra.iter().cloned());
  parts.extend(named);
  if !parts.is_empty() {
    // `%opt` shorthands join the first positional
    let mut s = String::new();
    for (i, p) in parts.iter().enumerate() {
      if i > 0 && !(p.starts_with('%') && !parts[i - 1].contains('=')) {
        s.push(',');
      }
      s.push_str(p);
    }
    out.push_str(&format!("[{s}]\n"));
  }
}

/// Source of a sequence of blocks; `level` = delimiter nesting so that nested
/// delimited blocks of one kind use different lengths.
pub fn src_blocks(bs: &[Blk], level: usize, out: &mut String) {
  for (i, b) in bs.iter().enumerate() {
    if i > 0 {
      out.push('\n');
    }
    src_block(b, level, out);
  }
}

fn delim(ch: char, level: usize) -> String {
  // only example delimiters vary in length
  ch.to_string().repeat(if ch == '=' { 4 + level } else { 4 })
}

fn quote_attr(s: &str) -> String {
  if s.contains(',') || s.contains('"') { format!("\"{}\"", s.replace('"', "\\\"")) } else { s.to_string() }
}

fn push_lines(lines: &[String], out: &mut String) {
  for l in lines {
    out.push_str(l);
    out.push('\n');
  }
}

pub fn src_block(b: &Blk, level: usize, out: &mut String) {
  let m = &b.meta;
  match &b.kind {
    Kind::Para(v) => {
      meta_lines(m, "", &[], out);
      out.push_str(&src_inl(v, false));
      out.push('\n');
    }
    Kind::LitPara(lines) => {
      meta_lines(m, "", &[], out);
      for l in lines {
        out.push_str(&format!("  {l}\n"));
      }
    }
    Kind::Listing { style, lang, lines } => {
      // 0: ---- bare, 1: [source,lang] ----, 2: [listing] paragraph, 3: ``` fence, 4: [,lang] ----
      let d = delim('-', level);
      match style {
        1 => {
          let ex: Vec<String> = lang.iter().cloned().collect();
          meta_lines(m, "source", &ex, out);
          out.push_str(&format!("{d}\n"));
          push_lines(lines, out);
          out.push_str(&format!("{d}\n"));
        }
        2 => {
          meta_lines(m, "listing", &[], out);
          push_lines(lines, out);
        }
        3 => {
          meta_lines(m, "", &[], out);
          out.push_str(&format!("```{}\n", lang.as_deref().unwrap_or("")));
          push_lines(lines, out);
          out.push_str("```\n");
        }
        4 => {
          // `[,lang]`: implied source style
          let ex: Vec<String> = lang.iter().cloned().collect();
          meta_lines(m, "", &ex, out);
          out.push_str(&format!("{d}\n"));
          push_lines(lines, out);
          out.push_str(&format!("{d}\n"));
        }
        _ => {
          meta_lines(m, "", &[], out);
          out.push_str(&format!("{d}\n"));
          push_lines(lines, out);
          out.push_str(&format!("{d}\n"));
        }
      }
    }
    Kind::Literal { lines, style } => {
      if *style == 1 {
        meta_lines(m, "literal", &[], out);
        push_lines(lines, out);
      } else {
        let d = delim('.', level);
        meta_lines(m, "", &[], out);
        out.push_str(&format!("{d}\n"));
        push_lines(lines, out);
        out.push_str(&format!("{d}\n"));
      }
    }
    Kind::RawBlock(raw) => {
      let d = delim('+', level);
      out.push_str(&format!("{d}\n{raw}\n{d}\n"));
    }
    Kind::Container { k, attr, cite, collapsible, kids } => {
      let mut extra = vec![];
      let (style, ch) = match k {
        C::Example => ("", '='),
        C::Sidebar => ("", '*'),
        C::Quote => ("quote", '_'),
        C::Open => ("", '-'),
      };
      if *k == C::Example && *collapsible > 0 {
        extra.push(if *collapsible == 2 { "%collapsible%open".to_string() } else { "%collapsible".to_string() });
      }
      if *k == C::Quote {
        if let Some(a) = attr {
          extra.push(quote_attr(a));
        }
        if let Some(c) = cite {
          if attr.is_none() {
            extra.push(String::new());
          }
          extra.push(quote_attr(c));
        }
      }
      let style = if *k == C::Quote && attr.is_none() && cite.is_none() { "" } else { style };
      meta_lines(m, style, &extra, out);
      let d = if *k == C::Open { "--".to_string() } else { delim(ch, level) };
      out.push_str(&format!("{d}\n"));
      src_blocks(kids, level + 1, out);
      out.push_str(&format!("{d}\n"));
    }
    Kind::AdmPara(k, v) => {
      meta_lines(m, "", &[], out);
      out.push_str(&format!("{}: {}\n", ADM[*k], src_inl(v, false)));
    }
    Kind::AdmBlock(k, kids, c) => {
      meta_lines(m, ADM[*k], &[], out);
      let d = if *c == C::Open { "--".to_string() } else { delim('=', level) };
      out.push_str(&format!("{d}\n"));
      src_blocks(kids, level + 1, out);
      out.push_str(&format!("{d}\n"));
    }
    Kind::Verse { attr, cite, lines, delim: del } => {
      let mut extra = vec![];
      if let Some(a) = attr {
        extra.push(quote_attr(a));
      }
      if let Some(c) = cite {
        if attr.is_none() {
          extra.push(String::new());
        }
        extra.push(quote_attr(c));
      }
      meta_lines(m, "verse", &extra, out);
      let d = delim('_', level);
      if *del {
        out.push_str(&format!("{d}\n"));
      }
      for l in lines {
        out.push_str(&src_inl(l, true));
        out.push('\n');
      }
      if *del {
        out.push_str(&format!("{d}\n"));
      }
    }
    Kind::Ulist(u) => {
      let extra = if u.interactive { vec!["%interactive".to_string()] } else { vec![] };
      meta_lines(m, u.style.unwrap_or(""), &extra, out);
      let mk = if u.dash { "-".to_string() } else { "*".repeat(u.depth) };
      for (i, it) in u.items.iter().enumerate() {
        let ck = match it.check {
          Some(true) => "[x] ",
          Some(false) => "[ ] ",
          None => "",
        };
        out.push_str(&format!("{mk} {ck}{}\n", src_inl(&it.text, false)));
        src_item_rest(&it.nested, &it.attached, it.att_first, level, out);
        if it.blank_after && i + 1 < u.items.len() {
          out.push('\n');
        }
      }
    }
    Kind::Olist(o) => {
      let mut extra = vec![];
      if o.reversed {
        extra.push("%reversed".to_string());
      }
      if let Some(s) = o.start {
        if !o.explicit {
          extra.push(format!("start={s}"));
        }
      }
      meta_lines(m, o.style.unwrap_or(""), &extra, out);
      for (i, it) in o.items.iter().enumerate() {
        let mk = if o.explicit {
          format!("{}.", o.start.unwrap_or(1) + i as u32)
        } else {
          ".".repeat(o.depth)
        };
        out.push_str(&format!("{mk} {}\n", src_inl(&it.text, false)));
        src_item_rest(&it.nested, &it.attached, it.att_first, level, out);
        if it.blank_after && i + 1 < o.items.len() {
          out.push('\n');
        }
      }
    }
    Kind::Dlist(d) => {
      let style = ["", "horizontal", "qanda"][d.style as usize];
      meta_lines(m, style, &[], out);
      for (i, it) in d.items.iter().enumerate() {
        for (k, t) in it.terms.iter().enumerate() {
          out.push_str(&src_inl(t, true));
          out.push_str(DMARK[d.marker]);
          if k + 1 < it.terms.len() {
            out.push('\n');
          }
        }
        match &it.text {
          Some(t) => {
            out.push_str(if it.below { "\n" } else { " " });
            out.push_str(&src_inl(t, false));
            out.push('\n');
          }
          None => out.push('\n'),
        }
        src_item_rest(&it.nested, &it.attached, false, level, out);
        if it.blank_after && i + 1 < d.items.len() {
          out.push('\n');
        }
      }
    }
    Kind::Table(t) => src_table(t, m, out),
    Kind::Image { target, alt, w, h, link } => {
      meta_lines(m, "", &[], out);
      let mut a = vec![];
      a.push(alt.clone().unwrap_or_default());
      if w.is_some() || h.is_some() {
        a.push(w.map(|w| w.to_string()).unwrap_or_default());
      }
      if let Some(h) = h {
        a.push(h.to_string());
      }
      if let Some(l) = link {
        a.push(format!("link={l}"));
      }
      let mut a = a.join(",");
      if a.starts_with(",link") {
        a.remove(0);
      }
      out.push_str(&format!("image::{target}[{a}]\n"));
    }
    Kind::Quoted { form, text, attr, cite } => {
      meta_lines(m, if *form == 2 { "abstract" } else { "" }, &[], out);
      let t = src_inl(text, false);
      let mut by = attr.clone().unwrap_or_default();
      if let Some(c) = cite {
        by.push_str(&format!(", {c}"));
      }
      match form {
        0 => out.push_str(&format!("\"{t}\"\n-- {by}\n")),
        1 => {
          for l in t.lines() {
            out.push_str(&format!("> {l}\n"));
          }
          if !by.is_empty() {
            out.push_str(&format!("> -- {by}\n"));
          }
        }
        _ => out.push_str(&format!("{t}\n")),
      }
    }
    Kind::Biblio(items) => {
      meta_lines(m, "bibliography", &[], out);
      for (id, label, text) in items {
        let label = label.as_ref().map(|l| format!(",{l}")).unwrap_or_default();
        out.push_str(&format!("* [[[{id}{label}]]] {}\n", src_inl(text, true)));
      }
    }
    Kind::Break => {
      meta_lines(m, "", &[], out);
      out.push_str("'''\n");
    }
    Kind::PageBreak => out.push_str("<<<\n"),
    Kind::Discrete(l, t) => {
      meta_lines(m, "discrete", &[], out);
      out.push_str(&format!("{} {}\n", "=".repeat(*l as usize + 1), src_inl(t, true)));
    }
    Kind::Hidden(s) => {
      out.push_str(s);
      out.push('\n');
    }
    Kind::Callouts { lines, items, auto } => {
      meta_lines(m, "source", &["ruby".to_string()], out);
      let d = delim('-', level);
      out.push_str(&format!("{d}\n"));
      for (l, nums) in lines {
        out.push_str(l);
        for n in nums {
          out.push_str(&if *auto { " <.>".to_string() } else { format!(" <{n}>") });
        }
        out.push('\n');
      }
      out.push_str(&format!("{d}\n"));
      for (i, it) in items.iter().enumerate() {
        out.push_str(&if *auto { "<.> ".to_string() } else { format!("<{}> ", i + 1) });
        out.push_str(&src_inl(it, false));
        out.push('\n');
      }
    }
  }
}

fn src_item_rest(nested: &[Blk], attached: &[Blk], att_first: bool, level: usize, out: &mut String) {
  let att = |out: &mut String| {
    for b in attached {
      out.push_str("+\n");
      src_block(b, level, out);
    }
  };
  if att_first {
    att(out);
    // directly following lines would continue an attached paragraph
    if !attached.is_empty() && !nested.is_empty() {
      out.push('\n');
    }
  }
  for b in nested {
    // metadata of a nested list needs no separation from the item
    src_block(b, level, out);
  }
  if !att_first {
    att(out);
  }
}

fn src_table(t: &Tbl, m: &Meta, out: &mut String) {
  let mut extra = vec![];
  let mut opts = String::new();
  if t.header && !t.implicit_header {
    opts.push_str("%header");
  }
  if t.footer {
    opts.push_str("%footer");
  }
  if t.autowidth {
    opts.push_str("%autowidth");
  }
  if !opts.is_empty() {
    extra.push(opts);
  }
  if t.explicit_cols {
    let mut cols = vec![];
    let plain = (0..t.widths.len()).all(|i| {
      t.col_h[i].is_none() && t.col_v[i].is_none() && t.col_style[i].is_none() && t.widths[i] == 1 && !t.col_auto[i]
    });
    for i in 0..t.widths.len() {
      let mut s = String::new();
      if let Some(h) = t.col_h[i] {
        s.push(h);
      }
      if let Some(v) = t.col_v[i] {
        s.push('.');
        s.push(v);
      }
      if t.col_auto[i] {
        s.push('~');
      } else if !t.autowidth {
        if t.widths[i] != 1 || t.cols_form & 1 == 0 || s.is_empty() && t.col_style[i].is_none() {
          s.push_str(&t.widths[i].to_string());
          if t.cols_form & 8 != 0 {
            s.push('%');
          }
        }
      } else if s.is_empty() && t.col_style[i].is_none() {
        s.push('1');
      }
      if let Some(c) = t.col_style[i] {
        s.push(c);
      }
      cols.push(s);
    }
    if plain && t.cols_form & 2 != 0 && cols.len() > 1 {
      extra.push(format!("cols={}{}", cols.len(), if t.cols_form & 4 != 0 { "*" } else { "" }));
    } else {
      if t.cols_form & 4 != 0 {
        // runs of equal columns
        let mut runs: Vec<(usize, String)> = vec![];
        for c in cols {
          match runs.last_mut() {
            Some(l) if l.1 == c => l.0 += 1,
            _ => runs.push((1, c)),
          }
        }
        cols = runs.into_iter().map(|(n, c)| if n > 1 { format!("{n}*{c}") } else { c }).collect();
      }
      let joint = [",", ", ", ";"][t.cols_form as usize / 16 % 3];
      extra.push(format!("cols=\"{}\"", cols.join(joint)));
    }
  }
  if t.noheader {
    extra.push(if extra.first().is_some_and(|e| e.starts_with('%')) { "opts=noheader" } else { "%noheader" }.to_string());
  }
  let data = t.format != 'p';
  if data && !t.by_delim {
    extra.push(format!("format={}", match t.format { 'c' => "csv", 't' => "tsv", _ => "dsv" }));
  }
  let usual = match t.format { 'p' => if t.nested { '!' } else { '|' }, 'c' => ',', 't' => '\t', _ => ':' };
  if t.sep != usual {
    extra.push(format!("separator={}", t.sep));
  }
  for (k, v) in [("frame", t.frame), ("grid", t.grid), ("stripes", t.stripes), ("float", t.float)] {
    if let Some(v) = v {
      extra.push(format!("{k}={v}"));
    }
  }
  if let Some(w) = t.width {
    extra.push(format!("width={w}%"));
  }
  meta_lines(m, "", &extra, out);
  let d = match t.format {
    _ if t.nested => "!===",
    'c' if t.by_delim => ",===",
    'd' if t.by_delim => ":===",
    _ => "|===",
  };
  let sep = t.sep;
  out.push_str(&format!("{d}\n"));
  for (ri, row) in t.rows.iter().enumerate() {
    if data {
      let cells: Vec<String> = row.iter().enumerate().map(|(ci, c)| data_cell(t, c, ri + ci)).collect();
      out.push_str(&cells.join(&sep.to_string()));
      out.push('\n');
      if ri == 0 && (t.header && t.implicit_header || t.noheader) {
        out.push('\n');
      }
      continue;
    }
    let before = out.len();
    for (ci, c) in row.iter().enumerate() {
      let mut spec = String::new();
      if c.dup == 0 {
        continue;
      }
      if c.dup > 1 {
        spec.push_str(&format!("{}*", c.dup));
      } else if c.colspan > 1 || c.rowspan > 1 {
        if c.colspan > 1 {
          spec.push_str(&c.colspan.to_string());
        }
        if c.rowspan > 1 {
          spec.push('.');
          spec.push_str(&c.rowspan.to_string());
        }
        spec.push('+');
      }
      if let Some(h) = c.halign {
        spec.push(h);
      }
      if let Some(v) = c.valign {
        spec.push('.');
        spec.push(v);
      }
      if let Some(s) = c.style {
        spec.push(s);
      }
      if ci > 0 && (t.layout == 0 || (t.header && ri == 0)) && !out.ends_with('\n') {
        out.push(' ');
      }
      out.push_str(&spec);
      out.push(sep);
      if c.dup > 1 {
        out.push_str(&c.lit[0]);
      } else if !c.blocks.is_empty() {
        if t.layout == 1 {
          out.push('\n');
        }
        let mut s = String::new();
        src_blocks(&c.blocks, 0, &mut s);
        out.push_str(&s);
        // a cell ends where the next begins
        while out.ends_with('\n') {
          out.pop();
        }
      } else if !c.lit.is_empty() {
        out.push_str(&c.lit.join("\n"));
      } else {
        for (pi, p) in c.paras.iter().enumerate() {
          if pi > 0 {
            out.push_str("\n\n");
          }
          out.push_str(&src_inl(p, t.header && ri == 0));
        }
      }
      if t.layout == 1 && !(t.header && ri == 0) {
        out.push('\n');
      }
    }
    if out.len() > before && (t.layout == 0 || (t.header && ri == 0)) {
      out.push('\n');
    }
    if ri == 0 && (t.header && t.implicit_header || t.noheader) {
      out.push('\n');
    } else if ri == 0 && t.layout == 1 && !t.header && t.cols_form % 3 == 0 && out[before..].trim_end().contains('\n') {
      // no header, for the row takes more than a line
      out.push('\n');
    } else if t.layout == 1 && ri % 2 == 1 && out.len() > before && t.rows[0].iter().any(|c| c.dup > 0) {
      out.push('\n');
    }
  }
  out.push_str(&format!("{d}\n"));
}

/// a cell of a csv, tsv or dsv table
fn data_cell(t: &Tbl, c: &Cell, n: usize) -> String {
  let s = if !c.blocks.is_empty() {
    let mut s = String::new();
    src_blocks(&c.blocks, 0, &mut s);
    s.trim_end().to_string()
  } else if !c.lit.is_empty() {
    c.lit.join("\n")
  } else {
    src_inl(&c.paras[0], true)
  };
  if t.format == 'd' {
    s.replace(t.sep, &format!("\\{}", t.sep))
  } else if s.contains(t.sep) || s.contains(['"', '\n', '&']) || n % 3 == 0 {
    format!("\"{}\"", s.replace('"', "\"\""))
  } else {
    s
  }
}

pub fn src_sect(s: &Sect, out: &mut String) {
  if let Some(r) = s.reftext.as_ref().filter(|_| s.form == 0) {
    out.push_str(&format!("[reftext=\"{r}\"]\n"));
  }
  if s.id.is_some() || !s.roles.is_empty() {
    out.push('[');
    if let Some(i) = &s.id {
      out.push_str(&format!("#{i}"));
    }
    for r in &s.roles {
      out.push_str(&format!(".{r}"));
    }
    if let Some(r) = s.reftext.as_ref().filter(|_| s.form == 2) {
      out.push_str(&format!(",reftext={r}"));
    }
    out.push_str("]\n");
  } else if s.form == 2 && let Some(r) = &s.reftext {
    out.push_str(&format!("[reftext={r}]\n"));
  }
  if let Some(r) = s.reftext.as_ref().filter(|_| s.form == 1) {
    out.push_str(&format!("[reftext=\"{r}\"]\n"));
  }
  let t = src_inl(&s.title, true);
  let n = t.chars().count();
  if s.setext && n > 3 && s.level <= 4 {
    let u = ["=", "-", "~", "^", "+"][s.level as usize];
    out.push_str(&format!("{t}\n{}\n", u.repeat(n)));
  } else {
    out.push_str(&format!("{} {t}\n", "=".repeat(s.level as usize + 1)));
  }
  out.push('\n');
  for b in &s.blocks {
    src_block(b, 0, out);
    out.push('\n');
  }
  for c in &s.subs {
    src_sect(c, out);
  }
}

pub fn src_doc(d: &Doc) -> String {
  let mut out = String::new();
  if let Some(t) = &d.title {
    out.push_str(&format!("= {}\n", src_inl(t, true)));
  }
  for (k, v) in &d.attrs {
    out.push_str(&format!(":{k}:{}{v}\n", if v.is_empty() { "" } else { " " }));
  }
  if d.title.is_some() || !d.attrs.is_empty() {
    out.push('\n');
  }
  for b in &d.preamble {
    src_block(b, 0, &mut out);
    out.push('\n');
  }
  for s in &d.sects {
    src_sect(s, &mut out);
  }
  out
}

// ---------------------------------------------------------------- the reference DOM

pub fn el(tag: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Node {
  Node::El(El {
    tag: tag.into(),
    attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect(),
    kids,
  })
}
pub fn txt(s: impl Into<String>) -> Node {
  Node::Text(s.into())
}
pub fn div(class: &str, kids: Vec<Node>) -> Node {
  el("div", &[("class", class)], kids)
}

/// Knowledge about ids that cross references need: id -> text of the target.
#[derive(Clone, Debug, Default)]
pub struct Refs {
  pub text: BTreeMap<String, Vec<In>>,
}

#[derive(Default)]
pub struct Dom {
  pub refs: Refs,
  pub foots: Vec<(Option<String>, Vec<Node>)>,
  pub ex: usize,
  pub tbl: usize,
  pub fig: usize,
  pub lst: usize,
  pub listing_caption: Option<String>,
  /// section numbering
  pub sectnums: bool,
  pub nums: [usize; 6],
  pub sect_ids: BTreeMap<String, usize>,
  pub doctitle: bool,
  /// `table-frame`, `table-grid`, `table-stripes` of the document
  pub table_attrs: BTreeMap<String, String>,
}

fn with_meta(base: &str, m: &Meta) -> Vec<(String, String)> {
  let mut v = vec![];
  if let Some(i) = &m.id {
    v.push(("id".to_string(), i.clone()));
  }
  let mut c = base.to_string();
  for r in &m.roles {
    if !c.is_empty() {
      c.push(' ');
    }
    c.push_str(r);
  }
  if !c.is_empty() {
    v.push(("class".to_string(), c));
  }
  v
}

fn mk(tag: &str, attrs: Vec<(String, String)>, kids: Vec<Node>) -> Node {
  Node::El(El { tag: tag.into(), attrs, kids })
}

pub fn auto_id(title: &str) -> String {
  // the documented rule: lowercase, drop what is not a word char / space / hyphen / dot,
  // then spaces, hyphens and dots become one separator
  let mut s = String::from("_");
  let t: String = title.to_lowercase();
  let mut prev_sep = true;
  for c in t.chars() {
    if c == ' ' || c == '-' || c == '.' || c == '_' {
      if !prev_sep {
        s.push('_');
      }
      prev_sep = true;
    } else if c.is_alphanumeric() {
      s.push(c);
      prev_sep = false;
    }
  }
  while s.ends_with('_') && s.len() > 1 {
    s.pop();
  }
  s
}

impl Dom {
  pub fn inl(&mut self, v: &[In]) -> Vec<Node> {
    let mut out = vec![];
    for i in v {
      match i {
        In::Txt(t) => out.push(txt(t.as_str())),
        In::Sp(_) => out.push(txt(" ")),
        In::Fmt { f, id, roles, kids, .. } => {
          let tag = match f {
            F::Bold => "strong",
            F::Ital => "em",
            F::Mono => "code",
            F::Hi => {
              if roles.is_empty() && id.is_none() {
                "mark"
              } else {
                "span"
              }
            }
            F::Sub => "sub",
            F::Sup => "sup",
          };
          let mut a = vec![];
          if let Some(i) = id {
            a.push(("id".to_string(), i.clone()));
          }
          if !roles.is_empty() {
            a.push(("class".to_string(), roles.join(" ")));
          }
          let k = self.inl(kids);
          out.push(mk(tag, a, k));
        }
        In::LitMono(t) => out.push(el("code", &[], vec![txt(t.as_str())])),
        In::PassTxt(t) => out.push(txt(t.as_str())),
        In::RawPass(t, _) => out.extend(crate::html::parse(t).expect("raw html of the model parses")),
        In::Link { url, text, role, blank, mac, x } => {
          let mut a = vec![("href".to_string(), url.clone())];
          let mut cl = vec![];
          if text.is_none() {
            cl.push("bare".to_string());
          }
          if let Some(r) = role {
            cl.push(r.clone());
          }
          if !cl.is_empty() {
            a.push(("class".to_string(), cl.join(" ")));
          }
          if let Some(i) = &x.id {
            a.push(("id".into(), i.clone()));
          }
          if let Some(t) = &x.title {
            a.push(("title".into(), t.clone()));
          }
          let window = if *blank { Some("_blank") } else { x.window };
          if let Some(w) = window {
            a.push(("target".into(), w.into()));
          }
          let mut rel = vec![];
          if window == Some("_blank") || window.is_some() && x.noopener {
            rel.push("noopener");
          }
          if x.nofollow {
            rel.push("nofollow");
          }
          if !rel.is_empty() {
            a.push(("rel".into(), rel.join(" ")));
          }
          let _ = mac;
          let k = match text {
            Some(t) => self.inl(t),
            None => vec![txt(url.as_str())],
          };
          out.push(mk("a", a, k));
        }
        In::Mail { addr, text, more } => {
          let mut href = format!("mailto:{addr}");
          for (k, v) in ["subject", "body"].iter().zip(more) {
            if let Some(v) = v {
              href.push(if href.contains('?') { '&' } else { '?' });
              href.push_str(k);
              href.push('=');
              for b in v.bytes() {
                match b {
                  b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => href.push(b as char),
                  _ => href.push_str(&format!("%{b:02X}")),
                }
              }
            }
          }
          let k = match text {
            Some(t) => self.inl(t),
            None => vec![txt(addr.as_str())],
          };
          out.push(el("a", &[("href", &href)], k));
        }
        In::Xref { id, text, .. } => {
          let k = match text {
            Some(t) => self.inl(t),
            None => match self.refs.text.get(id).cloned() {
              Some(t) if !t.is_empty() => self.inl(&t),
              _ => vec![txt(format!("[{id}]"))],
            },
          };
          out.push(el("a", &[("href", &format!("#{id}"))], k));
        }
        In::Foot { id, kids } => {
          let slot = kids;
          let content = self.inl(slot);
          let n = self.foots.len() + 1;
          self.foots.push((id.clone(), content));
          let mut a = vec![("class".to_string(), "footnote".to_string())];
          if let Some(i) = id {
            a.push(("id".into(), format!("_footnote_{i}")));
          }
          out.push(mk(
            "sup",
            a,
            vec![
              txt("["),
              el(
                "a",
                &[
                  ("id", &format!("_footnoteref_{n}")),
                  ("class", "footnote"),
                  ("href", &format!("#_footnotedef_{n}")),
                  ("title", "View footnote."),
                ],
                vec![txt(n.to_string())],
              ),
              txt("]"),
            ],
          ));
        }
        In::FootRef(id) => {
          let n = self.foots.iter().position(|(i, _)| i.as_deref() == Some(id)).map(|p| p + 1).unwrap_or(0);
          out.push(el(
            "sup",
            &[("class", "footnoteref")],
            vec![
              txt("["),
              el(
                "a",
                &[("class", "footnote"), ("href", &format!("#_footnotedef_{n}")), ("title", "View footnote.")],
                vec![txt(n.to_string())],
              ),
              txt("]"),
            ],
          ));
        }
        In::Anchor(id, _) => out.push(el("a", &[("id", id)], vec![])),
        In::AttrRef(_, v) => out.push(txt(v.as_str())),
        In::Img { target, alt, w, roles } => {
          let auto = target.rsplit('/').next().unwrap().rsplit_once('.').unwrap().0.replace(['-', '_'], " ");
          let mut a = vec![
            ("src".to_string(), target.clone()),
            ("alt".to_string(), alt.clone().unwrap_or(auto)),
          ];
          if let Some(w) = w {
            a.push(("width".into(), w.to_string()));
          }
          let mut cl = "image".to_string();
          for r in roles {
            cl.push(' ');
            cl.push_str(r);
          }
          out.push(el("span", &[("class", &cl)], vec![mk("img", a, vec![])]));
        }
        In::Kbd(k) => {
          let mut kids = vec![];
          for (i, key) in k.iter().enumerate() {
            if i > 0 {
              kids.push(txt("+"));
            }
            kids.push(el("kbd", &[], vec![txt(key.as_str())]));
          }
          if k.len() > 1 {
            out.push(el("span", &[("class", "keyseq")], kids));
          } else {
            out.extend(kids);
          }
        }
        In::Btn(t) => out.push(el("b", &[("class", "button")], vec![txt(t.as_str())])),
        In::Menu(m, items) => {
          if items.is_empty() {
            out.push(el("b", &[("class", "menuref")], vec![txt(m.as_str())]));
          } else {
            let mut k = vec![el("b", &[("class", "menu")], vec![txt(m.as_str())])];
            for (i, it) in items.iter().enumerate() {
              k.push(txt("\u{a0}"));
              k.push(el("b", &[("class", "caret")], vec![txt("\u{203a}")]));
              let c = if i + 1 == items.len() { "menuitem" } else { "submenu" };
              k.push(el("b", &[("class", c)], vec![txt(it.as_str())]));
            }
            out.push(el("span", &[("class", "menuseq")], k));
          }
        }
        In::IdxVis(k, _) => out.extend(self.inl(k)),
        In::IdxHid(_) => {}
        In::Br => {
          out.push(el("br", &[], vec![]));
          out.push(txt(" "));
        }
        In::Dq(k) => {
          out.push(txt("\u{201c}"));
          out.extend(self.inl(k));
          out.push(txt("\u{201d}"));
        }
        In::Sq(k) => {
          out.push(txt("\u{2018}"));
          out.extend(self.inl(k));
          out.push(txt("\u{2019}"));
        }
        In::Sym(_, t) => out.push(txt(*t)),
        In::Esc(_, t) => out.push(txt(t.as_str())),
      }
    }
    out
  }

  fn title(&mut self, m: &Meta) -> Vec<Node> {
    match &m.title {
      Some(t) => {
        let k = self.inl(t);
        vec![div("title", k)]
      }
      None => vec![],
    }
  }

  fn captioned(&mut self, m: &Meta, caption: Option<(&str, usize)>, tag: &str) -> Vec<Node> {
    match &m.title {
      Some(t) => {
        let mut k = vec![];
        if let Some((c, n)) = caption {
          k.push(txt(format!("{c} {n}. ")));
        }
        k.extend(self.inl(t));
        vec![el(tag, &[("class", "title")], k)]
      }
      None => vec![],
    }
  }

  pub fn blocks(&mut self, bs: &[Blk]) -> Vec<Node> {
    let mut v = vec![];
    for b in bs {
      v.extend(self.block(b));
    }
    v
  }

  fn attribution(&mut self, attr: &Option<String>, cite: &Option<String>) -> Vec<Node> {
    if attr.is_none() && cite.is_none() {
      return vec![];
    }
    let mut k = vec![];
    match (attr, cite) {
      (Some(a), Some(c)) => {
        k.push(txt(format!("\u{2014} {a}")));
        k.push(el("br", &[], vec![]));
        k.push(el("cite", &[], vec![txt(c.as_str())]));
      }
      (Some(a), None) => k.push(txt(format!("\u{2014} {a}"))),
      (None, Some(c)) => k.push(txt(format!("\u{2014} {c}"))),
      _ => {}
    }
    vec![div("attribution", k)]
  }

  pub fn block(&mut self, b: &Blk) -> Vec<Node> {
    let m = &b.meta;
    match &b.kind {
      Kind::Para(v) => {
        let mut k = self.title(m);
        let p = self.inl(v);
        k.push(el("p", &[], p));
        vec![mk("div", with_meta("paragraph", m), k)]
      }
      Kind::LitPara(lines) | Kind::Literal { lines, .. } => {
        let mut k = self.title(m);
        k.push(div("content", vec![el("pre", &[], vec![txt(lines.join("\n"))])]));
        vec![mk("div", with_meta("literalblock", m), k)]
      }
      Kind::Listing { style, lang, lines } => {
        let cap = self.listing_caption.clone();
        let mut k = if cap.is_some() && m.title.is_some() {
          self.lst += 1;
          let n = self.lst;
          self.captioned(m, Some((&cap.unwrap(), n)), "div")
        } else {
          self.title(m)
        };
        let is_source = *style == 1 || (*style == 3 && lang.is_some()) || *style == 4;
        let pre = if is_source {
          let mut a = vec![];
          if let Some(l) = lang {
            a.push(("class".to_string(), format!("language-{l}")));
            a.push(("data-lang".to_string(), l.clone()));
          }
          el("pre", &[("class", "highlight")], vec![mk("code", a, vec![txt(lines.join("\n"))])])
        } else {
          el("pre", &[], vec![txt(lines.join("\n"))])
        };
        k.push(div("content", vec![pre]));
        vec![mk("div", with_meta("listingblock", m), k)]
      }
      Kind::RawBlock(raw) => crate::html::parse(raw).expect("raw html of the model parses"),
      Kind::Container { k, attr, cite, collapsible, kids } => match k {
        C::Example if *collapsible > 0 => {
          let t = match &m.title {
            Some(t) => self.inl(t),
            None => vec![txt("Details")],
          };
          let mut v = vec![el("summary", &[("class", "title")], t)];
          let inner = self.blocks(kids);
          v.push(div("content", inner));
          let mut a = with_meta("", m);
          if *collapsible == 2 {
            a.push(("open".into(), String::new()));
          }
          vec![mk("details", a, v)]
        }
        C::Example => {
          let mut v = if m.title.is_some() {
            self.ex += 1;
            let n = self.ex;
            self.captioned(m, Some(("Example", n)), "div")
          } else {
            vec![]
          };
          let inner = self.blocks(kids);
          v.push(div("content", inner));
          vec![mk("div", with_meta("exampleblock", m), v)]
        }
        C::Sidebar => {
          let mut v = self.title(m);
          v.extend(self.blocks(kids));
          vec![mk("div", with_meta("sidebarblock", m), vec![div("content", v)])]
        }
        C::Open => {
          let mut v = self.title(m);
          let inner = self.blocks(kids);
          v.push(div("content", inner));
          vec![mk("div", with_meta("openblock", m), v)]
        }
        C::Quote => {
          let mut v = self.title(m);
          let inner = self.blocks(kids);
          v.push(el("blockquote", &[], inner));
          v.extend(self.attribution(attr, cite));
          vec![mk("div", with_meta("quoteblock", m), v)]
        }
      },
      Kind::AdmPara(k, v) => {
        let mut c = self.title(m);
        c.extend(self.inl(v));
        vec![self.adm(*k, m, c)]
      }
      Kind::AdmBlock(k, kids, _) => {
        let mut c = self.title(m);
        c.extend(self.blocks(kids));
        vec![self.adm(*k, m, c)]
      }
      Kind::Verse { attr, cite, lines, .. } => {
        let mut v = self.title(m);
        let mut k = vec![];
        for (i, l) in lines.iter().enumerate() {
          if i > 0 {
            k.push(txt("\n"));
          }
          k.extend(self.inl(l));
        }
        v.push(el("pre", &[("class", "content")], k));
        v.extend(self.attribution(attr, cite));
        vec![mk("div", with_meta("verseblock", m), v)]
      }
      Kind::Ulist(u) => {
        let mut v = self.title(m);
        let check = u.items.iter().any(|i| i.check.is_some());
        let mut lis = vec![];
        for it in &u.items {
          let mut p = vec![];
          if let Some(c) = it.check {
            match (u.interactive, c) {
              (false, true) => p.push(txt("\u{2713} ")),
              (false, false) => p.push(txt("\u{274f} ")),
              (true, true) => {
                p.push(el("input", &[("type", "checkbox"), ("data-item-complete", "1"), ("checked", "")], vec![]));
                p.push(txt(" "));
              }
              (true, false) => {
                p.push(el("input", &[("type", "checkbox"), ("data-item-complete", "0")], vec![]));
                p.push(txt(" "));
              }
            }
          }
          p.extend(self.inl(&it.text));
          lis.push(self.item(p, it));
        }
        let mut cl: Vec<&str> = vec![];
        if check {
          cl.push("checklist");
        }
        cl.extend(u.style);
        let ucl = cl.join(" ");
        let ul_a: Vec<(&str, &str)> = if cl.is_empty() { vec![] } else { vec![("class", &ucl)] };
        v.push(el("ul", &ul_a, lis));
        cl.insert(0, "ulist");
        vec![mk("div", with_meta(&cl.join(" "), m), v)]
      }
      Kind::Olist(o) => {
        let mut v = self.title(m);
        let styles = ["arabic", "loweralpha", "lowerroman", "upperalpha", "upperroman"];
        let st = o.style.unwrap_or(styles[(o.visual - 1).min(4)]);
        let ty = match st {
          "loweralpha" => Some("a"),
          "lowerroman" => Some("i"),
          "upperalpha" => Some("A"),
          "upperroman" => Some("I"),
          _ => None,
        };
        let mut a = vec![("class".to_string(), st.to_string())];
        if let Some(t) = ty {
          a.push(("type".into(), t.into()));
        }
        if let Some(s) = o.start {
          if s != 1 || !o.explicit {
            a.push(("start".into(), s.to_string()));
          }
        }
        if o.reversed {
          a.push(("reversed".into(), String::new()));
        }
        let mut lis = vec![];
        for it in &o.items {
          let p = self.inl(&it.text);
          lis.push(self.item(p, it));
        }
        v.push(mk("ol", a, lis));
        vec![mk("div", with_meta(&format!("olist {st}"), m), v)]
      }
      Kind::Dlist(d) => {
        let mut v = self.title(m);
        let mut rows = vec![];
        for it in &d.items {
          let terms: Vec<Vec<Node>> = it.terms.iter().map(|t| self.inl(t)).collect();
          let mut dd = vec![];
          if let Some(t) = &it.text {
            let k = self.inl(t);
            dd.push(el("p", &[], k));
          }
          dd.extend(self.blocks(&it.nested));
          dd.extend(self.blocks(&it.attached));
          match d.style {
            1 => {
              // one cell holds every term
              let mut td = vec![];
              for (i, t) in terms.into_iter().enumerate() {
                if i > 0 {
                  td.push(el("br", &[], vec![]));
                }
                td.extend(t);
              }
              rows.push(el("tr", &[], vec![el("td", &[("class", "hdlist1")], td), el("td", &[("class", "hdlist2")], dd)]));
            }
            2 => {
              let mut li: Vec<Node> = terms.into_iter().map(|t| el("p", &[], vec![el("em", &[], t)])).collect();
              li.extend(dd);
              rows.push(el("li", &[], li));
            }
            _ => {
              for t in terms {
                rows.push(el("dt", &[("class", "hdlist1")], t));
              }
              if it.text.is_some() || !it.nested.is_empty() || !it.attached.is_empty() {
                rows.push(el("dd", &[], dd));
              }
            }
          }
        }
        let (base, tag) = match d.style {
          1 => ("hdlist", "table"),
          2 => ("qlist qanda", "ol"),
          _ => ("dlist", "dl"),
        };
        v.push(el(tag, &[], rows));
        vec![mk("div", with_meta(base, m), v)]
      }
      Kind::Table(t) => self.table(t, m),
      Kind::Image { target, alt, w, h, link } => {
        let auto = target.rsplit('/').next().unwrap().rsplit_once('.').unwrap().0.replace(['-', '_'], " ");
        let mut a = vec![("src".to_string(), target.clone()), ("alt".to_string(), alt.clone().unwrap_or(auto))];
        if let Some(w) = w {
          a.push(("width".into(), w.to_string()));
        }
        if let Some(h) = h {
          a.push(("height".into(), h.to_string()));
        }
        let mut img = mk("img", a, vec![]);
        if let Some(l) = link {
          img = el("a", &[("class", "image"), ("href", l)], vec![img]);
        }
        let mut k = vec![div("content", vec![img])];
        if m.title.is_some() {
          self.fig += 1;
          let n = self.fig;
          k.extend(self.captioned(m, Some(("Figure", n)), "div"));
        }
        vec![mk("div", with_meta("imageblock", m), k)]
      }
      Kind::Quoted { form, text, attr, cite } => {
        let mut v = self.title(m);
        let mut k = self.inl(text);
        if *form == 1 && attr.is_none() {
          k = vec![el("div", &[("class", "paragraph")], vec![el("p", &[], k)])];
        }
        v.push(el("blockquote", &[], k));
        v.extend(self.attribution(attr, cite));
        vec![mk("div", with_meta(if *form == 2 { "quoteblock abstract" } else { "quoteblock" }, m), v)]
      }
      Kind::Biblio(items) => {
        let mut v = self.title(m);
        let mut lis = vec![];
        for (id, label, text) in items {
          let mut k = vec![el("a", &[("id", id)], vec![]), txt(format!("[{}] ", label.as_ref().unwrap_or(id)))];
          k.extend(self.inl(text));
          lis.push(el("li", &[], vec![el("p", &[], k)]));
        }
        v.push(el("ul", &[("class", "bibliography")], lis));
        vec![mk("div", with_meta("ulist bibliography", m), v)]
      }
      Kind::Break => vec![mk("hr", with_meta("", m), vec![])],
      Kind::PageBreak => vec![el("div", &[("style", "page-break-after: always;")], vec![])],
      Kind::Discrete(l, t) => {
        let k = self.inl(t);
        let id = match &m.id {
          Some(i) => i.clone(),
          None => auto_id(&plain(t)),
        };
        let mut c = "discrete".to_string();
        for r in &m.roles {
          c.push(' ');
          c.push_str(r);
        }
        vec![el(&format!("h{}", l + 1), &[("id", &id), ("class", &c)], k)]
      }
      Kind::Hidden(_) => vec![],
      Kind::Callouts { lines, items, .. } => {
        let mut k = self.title(m);
        let mut code = vec![];
        for (i, (l, nums)) in lines.iter().enumerate() {
          if i > 0 {
            code.push(txt("\n"));
          }
          code.push(txt(l.as_str()));
          for n in nums {
            code.push(txt(" "));
            code.push(el("b", &[("class", "conum")], vec![txt(format!("({n})"))]));
          }
        }
        k.push(div(
          "content",
          vec![el(
            "pre",
            &[("class", "highlight")],
            vec![el("code", &[("class", "language-ruby"), ("data-lang", "ruby")], code)],
          )],
        ));
        let a = mk("div", with_meta("listingblock", m), k);
        let mut lis = vec![];
        for it in items {
          let p = self.inl(it);
          lis.push(el("li", &[], vec![el("p", &[], p)]));
        }
        vec![a, div("colist arabic", vec![el("ol", &[], lis)])]
      }
    }
  }

  fn adm(&mut self, k: usize, m: &Meta, content: Vec<Node>) -> Node {
    let table = el(
      "table",
      &[],
      vec![el(
        "tr",
        &[],
        vec![
          el("td", &[("class", "icon")], vec![div("title", vec![txt(ADM_T[k])])]),
          el("td", &[("class", "content")], content),
        ],
      )],
    );
    mk("div", with_meta(&format!("admonitionblock {}", ADM_C[k]), m), vec![table])
  }

  fn item(&mut self, p: Vec<Node>, it: &Item) -> Node {
    let mut li = vec![el("p", &[], p)];
    if it.att_first {
      li.extend(self.blocks(&it.attached));
      li.extend(self.blocks(&it.nested));
    } else {
      li.extend(self.blocks(&it.nested));
      li.extend(self.blocks(&it.attached));
    }
    el("li", &[], li)
  }

  fn table(&mut self, t: &Tbl, m: &Meta) -> Vec<Node> {
    let mut cl = "tableblock".to_string();
    let of = |own: Option<&str>, k: &str| own.map(String::from).or_else(|| self.table_attrs.get(k).cloned());
    let fr = match of(t.frame, "table-frame") {
      None => "all".into(),
      Some(f) if f == "topbot" => "ends".into(),
      Some(f) => f,
    };
    let stripes = of(t.stripes, "table-stripes");
    cl.push_str(&format!(" frame-{fr} grid-{}", of(t.grid, "table-grid").unwrap_or("all".into())));
    let explicit = t.width.filter(|w| *w != 100);
    if t.autowidth && explicit.is_none() {
      cl.push_str(" fit-content");
    } else if explicit.is_none() {
      cl.push_str(" stretch");
    }
    if let Some(f) = t.float {
      cl.push_str(&format!(" {f}"));
    }
    if let Some(s) = stripes {
      cl.push_str(&format!(" stripes-{s}"));
    }
    let mut a = with_meta(&cl, m);
    if let Some(w) = explicit {
      a.push(("style".into(), format!("width: {w}%;")));
    }
    let mut k = vec![];
    if m.title.is_some() {
      self.tbl += 1;
      let n = self.tbl;
      k.extend(self.captioned(m, Some(("Table", n)), "caption"));
    }
    let widths: Vec<u32> = if t.explicit_cols { t.widths.clone() } else { vec![1; t.widths.len()] };
    let cols: Vec<Node> = if t.autowidth {
      widths.iter().map(|_| el("col", &[], vec![])).collect()
    } else if t.explicit_cols && t.col_auto.contains(&true) {
      (widths.iter().zip(&t.col_auto))
        .map(|(w, a)| if *a { el("col", &[], vec![]) } else { el("col", &[("style", &format!("width: {w}%;"))], vec![]) })
        .collect()
    } else {
      col_percents(&widths).iter().map(|p| el("col", &[("style", &format!("width: {p}%;"))], vec![])).collect()
    };
    k.push(el("colgroup", &[], cols));
    let nrows = t.rows.len();
    let mut head = vec![];
    let mut body = vec![];
    let mut foot = vec![];
    // which grid columns a rowspan from above occupies
    let mut busy = vec![0u32; t.widths.len()];
    for (ri, row) in t.rows.iter().enumerate() {
      let is_head = t.header && ri == 0;
      let is_foot = t.footer && ri + 1 == nrows;
      let mut cells = vec![];
      let mut col = 0;
      for c in row {
        while col < busy.len() && busy[col] > 0 {
          col += 1;
        }
        // column specs apply by position among the row's cells
        let nth = cells.len();
        cells.push(self.cell(t, c, nth, is_head));
        for k in col..(col + c.colspan as usize).min(busy.len()) {
          busy[k] = c.rowspan;
        }
        col += c.colspan as usize;
      }
      for b in busy.iter_mut() {
        *b = b.saturating_sub(1);
      }
      let tr = el("tr", &[], cells);
      if is_head {
        head.push(tr);
      } else if is_foot {
        foot.push(tr);
      } else {
        body.push(tr);
      }
    }
    for (tag, rows) in [("thead", head), ("tbody", body), ("tfoot", foot)] {
      if !rows.is_empty() {
        k.push(el(tag, &[], rows));
      }
    }
    vec![mk("table", a, k)]
  }

  fn cell(&mut self, t: &Tbl, c: &Cell, col: usize, is_head: bool) -> Node {
    let style = if is_head { None } else { c.style.or(t.col_style[col]) };
    let h = c.halign.or(t.col_h[col]).unwrap_or('<');
    let v = c.valign.or(t.col_v[col]).unwrap_or('<');
    let h = match h {
      '<' => "left",
      '^' => "center",
      _ => "right",
    };
    let v = match v {
      '<' => "top",
      '^' => "middle",
      _ => "bottom",
    };
    let tag = if is_head || style == Some('h') { "th" } else { "td" };
    let mut a = vec![("class".to_string(), format!("tableblock halign-{h} valign-{v}"))];
    if c.colspan > 1 {
      a.push(("colspan".into(), c.colspan.to_string()));
    }
    if c.rowspan > 1 {
      a.push(("rowspan".into(), c.rowspan.to_string()));
    }
    let mut kids = vec![];
    if is_head {
      for (i, p) in c.paras.iter().enumerate() {
        if i > 0 {
          kids.push(txt(" "));
        }
        kids.extend(self.inl(p));
      }
    } else {
      match style {
        Some('l') => {
          let lines = c.lit.join("\n");
          kids.push(div("literal", vec![el("pre", &[], vec![txt(lines)])]));
        }
        Some('a') => {
          let inner = self.blocks(&c.blocks);
          kids.push(div("content", inner));
        }
        _ => {
          for p in &c.paras {
            let mut k = self.inl(p);
            let w = match style {
              Some('e') => Some("em"),
              Some('s') => Some("strong"),
              Some('m') => Some("code"),
              _ => None,
            };
            if let Some(w) = w {
              k = vec![el(w, &[], k)];
            }
            kids.push(el("p", &[("class", "tableblock")], k));
          }
        }
      }
    }
    mk(tag, a, kids)
  }

  pub fn footnotes(&mut self) -> Vec<Node> {
    if self.foots.is_empty() {
      return vec![];
    }
    let mut k = vec![el("hr", &[], vec![])];
    for (i, (_, c)) in self.foots.clone().into_iter().enumerate() {
      let n = i + 1;
      let mut d = vec![el("a", &[("href", &format!("#_footnoteref_{n}"))], vec![txt(n.to_string())]), txt(". ")];
      d.extend(c);
      k.push(el("div", &[("class", "footnote"), ("id", &format!("_footnotedef_{n}"))], d));
    }
    vec![el("div", &[("id", "footnotes")], k)]
  }

  pub fn sect_id(&mut self, s: &Sect) -> String {
    match &s.id {
      Some(i) => {
        if i.starts_with('_') {
          *self.sect_ids.entry(i.clone()).or_insert(0) += 1;
        }
        i.clone()
      }
      None => {
        let base = auto_id(&plain(&s.title));
        let n = self.sect_ids.entry(base.clone()).or_insert(0);
        *n += 1;
        if *n == 1 { base } else { format!("{base}_{n}") }
      }
    }
  }

  pub fn sect(&mut self, s: &Sect) -> Vec<Node> {
    let id = self.sect_id(s);
    let mut h = vec![];
    if self.sectnums && s.level <= 3 {
      let l = s.level as usize;
      self.nums[l] += 1;
      for k in l + 1..6 {
        self.nums[k] = 0;
      }
      let n: Vec<String> = (1..=l).map(|i| self.nums[i].to_string()).collect();
      h.push(txt(format!("{}. ", n.join("."))));
    }
    h.extend(self.inl(&s.title));
    let h = el(&format!("h{}", s.level + 1), &[("id", &id)], h);
    let mut inner = self.blocks(&s.blocks);
    for c in &s.subs {
      inner.extend(self.sect(c));
    }
    let mut cl = format!("sect{}", s.level);
    for r in &s.roles {
      cl.push(' ');
      cl.push_str(r);
    }
    if s.level == 1 {
      vec![div(&cl, vec![h, div("sectionbody", inner)])]
    } else {
      let mut k = vec![h];
      k.extend(inner);
      vec![div(&cl, k)]
    }
  }

  pub fn doc(&mut self, d: &Doc) -> Vec<Node> {
    let mut v = vec![];
    let visible = d.preamble.iter().any(|b| !matches!(b.kind, Kind::Hidden(_)));
    if !d.preamble.is_empty() {
      let p = self.blocks(&d.preamble);
      if d.title.is_some() && !d.sects.is_empty() && visible {
        v.push(el("div", &[("id", "preamble")], vec![div("sectionbody", p)]));
      } else {
        v.extend(p);
      }
    }
    for s in &d.sects {
      v.extend(self.sect(s));
    }
    v.extend(self.footnotes());
    v
  }
}

/// Column widths in percent, as the asciidoctor HTML presents them: four decimals,
/// the last column taking up what rounding left over.
pub fn col_percents(w: &[u32]) -> Vec<String> {
  let total: u32 = w.iter().sum();
  w.iter().map(|x| format!("{}", *x as f64 * 100.0 / total as f64)).collect()
}

// ---------------------------------------------------------------- comparing DOMs

fn block_tag(t: &str) -> bool {
  matches!(
    t,
    "div" | "p" | "ul" | "ol" | "li" | "dl" | "dt" | "dd" | "table" | "tr" | "td" | "th" | "thead" | "tbody" | "tfoot" | "colgroup" | "col"
      | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "blockquote" | "details" | "summary" | "pre" | "hr" | "caption" | "section" | "aside"
      | "figure" | "figcaption" | "header" | "footer" | "nav" | "article" | "main" | "cite-block"
  )
}

/// Canonical form: attributes sorted, adjacent text merged, white space collapsed
/// outside `pre` and dropped at block edges.
pub fn canon(nodes: &[Node]) -> Vec<Node> {
  fn go(nodes: &[Node], pre: bool, parent_block: bool) -> Vec<Node> {
    let mut out: Vec<Node> = vec![];
    for n in nodes {
      match n {
        Node::Comment(_) => {}
        Node::Text(t) => {
          if let Some(Node::Text(p)) = out.last_mut() {
            p.push_str(t);
          } else {
            out.push(Node::Text(t.clone()));
          }
        }
        Node::El(e) => {
          let pre2 = pre || e.tag == "pre";
          let mut a = e.attrs.clone();
          for (k, v) in a.iter_mut() {
            if k == "class" {
              let mut c: Vec<&str> = v.split_whitespace().collect();
              c.sort();
              *v = c.join(" ");
            } else if k == "style" && e.tag == "col" {
              // widths agree to a hundredth of a percent
              if let Some(w) = v.trim().strip_prefix("width:") {
                if let Ok(w) = w.trim().trim_end_matches(';').trim_end_matches('%').parse::<f64>() {
                  *v = format!("width: {w:.2}%;");
                }
              }
            }
          }
          a.sort();
          let kids = go(&e.kids, pre2, block_tag(&e.tag));
          out.push(Node::El(El { tag: e.tag.clone(), attrs: a, kids }));
        }
      }
    }
    if !pre {
      for n in out.iter_mut() {
        if let Node::Text(t) = n {
          let lead = t.starts_with([' ', '\n']);
          let trail = t.ends_with([' ', '\n']);
          let mid = crate::html::norm_ws(t);
          *t = if mid.is_empty() {
            " ".to_string()
          } else {
            format!("{}{mid}{}", if lead { " " } else { "" }, if trail { " " } else { "" })
          };
        }
      }
      // drop white space next to block boundaries
      let n = out.len();
      for i in 0..n {
        let prev_block = if i == 0 { parent_block } else { matches!(&out[i - 1], Node::El(e) if block_tag(&e.tag) || e.tag == "br") };
        let next_block = if i + 1 == n { parent_block } else { matches!(&out[i + 1], Node::El(e) if block_tag(&e.tag)) };
        if let Node::Text(t) = &mut out[i] {
          if prev_block {
            *t = t.trim_start_matches([' ', '\n']).to_string();
          }
          if next_block {
            *t = t.trim_end_matches([' ', '\n']).to_string();
          }
        }
      }
      out.retain(|n| !matches!(n, Node::Text(t) if t.is_empty()));
    }
    out
  }
  go(nodes, false, true)
}

/// First difference between two canonical DOMs, with the path to it.
pub fn diff(exp: &[Node], got: &[Node]) -> Option<(String, String)> {
  fn show(n: Option<&Node>) -> String {
    match n {
      None => "nothing".into(),
      Some(n) => crate::html::clip(&crate::html::to_string(std::slice::from_ref(n)), 400),
    }
  }
  fn go(exp: &[Node], got: &[Node], path: &str) -> Option<(String, String)> {
    for i in 0..exp.len().max(got.len()) {
      match (exp.get(i), got.get(i)) {
        (Some(Node::Text(a)), Some(Node::Text(b))) => {
          if a != b {
            return Some((format!("{path}/text"), format!("expected text {a:?}\n got text      {b:?}")));
          }
        }
        (Some(Node::El(a)), Some(Node::El(b))) => {
          let p = format!("{path}/{}", a.tag);
          if a.tag != b.tag {
            return Some((p, format!("expected {}\n got      {}", show(exp.get(i)), show(got.get(i)))));
          }
          if a.attrs != b.attrs {
            return Some((
              format!("{p}@"),
              format!("expected <{} {:?}>\n got      <{} {:?}>\n in {}", a.tag, a.attrs, b.tag, b.attrs, show(got.get(i))),
            ));
          }
          if let Some(d) = go(&a.kids, &b.kids, &p) {
            return Some(d);
          }
        }
        (a, b) => {
          return Some((format!("{path}/#"), format!("expected {}\n got      {}", show(a), show(b))));
        }
      }
    }
    None
  }
  go(exp, got, "")
}

/// Words for generated text: letters, then a serial number, so every one is unique.
pub fn word(r: &mut Rng, serial: &mut usize) -> String {
  const A: [&str; 16] = ["ba", "ke", "li", "mo", "nu", "pa", "ri", "so", "tu", "va", "ze", "do", "fi", "gu", "ha", "jo"];
  *serial += 1;
  format!("{}{}{}", A[r.below(16)], A[r.below(16)], serial)
}
