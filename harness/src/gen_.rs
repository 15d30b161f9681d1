//! Random documents of the model, by feature profile.

use std::collections::BTreeMap;

use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
  /// token kind weights, see `T_*`
  pub tok: [usize; 22],
  /// block kind weights, see `B_*`
  pub blk: [usize; 24],
  pub max_depth: usize,
  pub max_blocks: usize,
  pub meta: usize,
  pub nl: bool,
}

pub const T_WORD: usize = 0;
pub const T_FMT: usize = 1;
pub const T_UNC: usize = 2;
pub const T_LITMONO: usize = 3;
pub const T_PASSTXT: usize = 4;
pub const T_RAW: usize = 5;
pub const T_URL: usize = 6;
pub const T_LINK: usize = 7;
pub const T_MAIL: usize = 8;
pub const T_XREF: usize = 9;
pub const T_FOOT: usize = 10;
pub const T_ANCHOR: usize = 11;
pub const T_ATTR: usize = 12;
pub const T_IMG: usize = 13;
pub const T_UI: usize = 14;
pub const T_IDX: usize = 15;
pub const T_BR: usize = 16;
pub const T_QUOTE: usize = 17;
pub const T_SYM: usize = 18;
pub const T_ESC: usize = 19;
pub const T_ROLE: usize = 20;
pub const T_SPECIAL: usize = 21;

pub const B_PARA: usize = 0;
pub const B_LITPARA: usize = 1;
pub const B_LISTING: usize = 2;
pub const B_LITERAL: usize = 3;
pub const B_RAW: usize = 4;
pub const B_EXAMPLE: usize = 5;
pub const B_SIDEBAR: usize = 6;
pub const B_QUOTE: usize = 7;
pub const B_OPEN: usize = 8;
pub const B_ADMPARA: usize = 9;
pub const B_ADMBLOCK: usize = 10;
pub const B_VERSE: usize = 11;
pub const B_ULIST: usize = 12;
pub const B_OLIST: usize = 13;
pub const B_DLIST: usize = 14;
pub const B_TABLE: usize = 15;
pub const B_IMAGE: usize = 16;
pub const B_BREAK: usize = 17;
pub const B_PAGE: usize = 18;
pub const B_DISCRETE: usize = 19;
pub const B_HIDDEN: usize = 20;
pub const B_CALLOUT: usize = 21;
pub const B_QUOTED: usize = 22;
pub const B_BIBLIO: usize = 23;

impl Cfg {
  /// everything, evenly
  pub fn all() -> Cfg {
    Cfg {
      tok: [30, 5, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 3],
      blk: [10, 1, 2, 1, 1, 2, 2, 2, 2, 1, 2, 1, 3, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1, 1],
      max_depth: 3,
      max_blocks: 5,
      meta: 3,
      nl: true,
    }
  }
  pub fn plain() -> Cfg {
    let mut c = Cfg::all();
    c.tok = [0; 22];
    c.tok[T_WORD] = 20;
    c.tok[T_FMT] = 1;
    c.blk = [0; 24];
    c.blk[B_PARA] = 1;
    c.meta = 0;
    c
  }
  pub fn t(mut self, k: usize, w: usize) -> Cfg {
    self.tok[k] = w;
    self
  }
  pub fn b(mut self, k: usize, w: usize) -> Cfg {
    self.blk[k] = w;
    self
  }
}

/// lists around the current position, by marker
#[derive(Clone, Copy, Debug, Default)]
pub struct Lists {
  pub u: usize,
  pub o: usize,
  pub d: usize,
  pub dash: bool,
  pub digit: bool,
  pub semi: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct Cx2 {
  pub nl: bool,
  /// inside brackets or angle quotes of a macro: no commas, brackets, macros
  pub in_text: bool,
  pub foot: bool,
  /// in a table cell: no bars
  pub cell: bool,
  /// which formats are already open
  pub open: u8,
  pub title: bool,
}

pub const BODY: Cx2 = Cx2 { nl: true, in_text: false, foot: true, cell: false, open: 0, title: false };
pub const TITLE: Cx2 = Cx2 { nl: false, in_text: false, foot: false, cell: false, open: 0, title: true };
pub const TEXT: Cx2 = Cx2 { nl: false, in_text: true, foot: false, cell: false, open: 0, title: false };
pub const CELL: Cx2 = Cx2 { nl: true, in_text: false, foot: true, cell: true, open: 0, title: false };

pub struct Gen<'a> {
  pub r: &'a mut Rng,
  pub n: usize,
  pub cfg: Cfg,
  pub ids: usize,
  /// every id an xref may name, with the text the reference shows
  pub refs: BTreeMap<String, Vec<In>>,
  /// titles to be used once more, and how often each automatic id was given
  stash: Vec<Vec<In>>,
  auto_ids: BTreeMap<String, usize>,
  /// ids referenced before being placed
  pub pending: Vec<String>,
  /// ids referenced before being placed, placed or not by now
  pub used: Vec<String>,
  /// named footnotes that can be referred to
  pub foot_ids: Vec<String>,
  /// named footnotes of the current top-level block
  pub foot_new: Vec<String>,
  pub attrs: Vec<(String, String)>,
  pub in_olist: usize,
  pub kinds: BTreeMap<&'static str, u64>,
}

impl<'a> Gen<'a> {
  pub fn new(r: &'a mut Rng, cfg: Cfg) -> Gen<'a> {
    Gen {
      r,
      n: 0,
      cfg,
      ids: 0,
      refs: BTreeMap::new(),
      stash: vec![],
      auto_ids: BTreeMap::new(),
      pending: vec![],
      used: vec![],
      foot_ids: vec![],
      foot_new: vec![],
      attrs: vec![],
      in_olist: 0,
      kinds: BTreeMap::new(),
    }
  }

  pub fn w(&mut self) -> String {
    word(self.r, &mut self.n)
  }
  fn tick(&mut self, k: &'static str) {
    *self.kinds.entry(k).or_insert(0) += 1;
  }
  pub fn new_id(&mut self) -> String {
    self.ids += 1;
    let a = self.r.pick_s(&["id", "anchor-", "a_b", "Mixed"]);
    format!("{a}{}", self.ids)
  }

  /// An id for a block that can be placed now: a pending one, or a fresh one.
  fn place_id(&mut self) -> String {
    if !self.pending.is_empty() && self.r.chance(2, 3) {
      let k = self.r.below(self.pending.len());
      self.pending.swap_remove(k)
    } else {
      self.new_id()
    }
  }

  pub fn words(&mut self, lo: usize, hi: usize) -> String {
    let n = self.r.range(lo, hi);
    (0..n).map(|_| self.w()).collect::<Vec<_>>().join(" ")
  }

  fn link_x(&mut self, cx: Cx2) -> LinkX {
    let mut x = LinkX::default();
    if cx.in_text || !self.r.chance(1, 3) {
      return x;
    }
    self.tick("link with attributes");
    if self.r.chance(1, 3) {
      x.id = Some(format!("lnk{}", self.r.below(100_000)));
    }
    if self.r.chance(1, 3) {
      x.title = Some(self.words(1, 3));
    }
    if self.r.chance(1, 2) {
      x.window = Some(self.r.pick_s(&["_blank", "_self", "other"]));
    }
    x.nofollow = self.r.chance(1, 3);
    x.noopener = self.r.chance(1, 3);
    x
  }

  pub fn inline(&mut self, max: usize, cx: Cx2) -> Vec<In> {
    let n = self.r.range(1, max.max(1));
    let mut v = vec![In::Txt(self.w())];
    for _ in 1..n {
      self.token(&mut v, cx);
    }
    v
  }

  fn ends_punct(&mut self, v: &mut Vec<In>, cx: Cx2) {
    if matches!(v.last(), Some(In::Sym(..))) {
      return;
    }
    if self.r.chance(1, 8) {
      let p = if cx.in_text { self.r.pick_s(&[".", "!", ";", ":"]) } else { self.r.pick_s(&[".", ",", "!", ";", ":", "?"]) };
      // a colon or period must not read as a list marker or block title: only mid-line
      if p != ":" && p != ";" || !cx.title {
        v.push(In::Txt(p.to_string()));
      }
    }
  }

  pub fn token(&mut self, v: &mut Vec<In>, cx: Cx2) {
    let mut w = self.cfg.tok;
    if cx.in_text {
      for k in [T_URL, T_LINK, T_MAIL, T_XREF, T_FOOT, T_ANCHOR, T_IMG, T_UI, T_IDX, T_BR, T_RAW, T_ROLE, T_QUOTE, T_ESC, T_PASSTXT, T_LITMONO] {
        w[k] = 0;
      }
    }
    if !cx.foot {
      w[T_FOOT] = 0;
    }
    if !cx.nl {
      w[T_BR] = 0;
    }
    if cx.title {
      for k in [T_URL, T_LINK, T_MAIL, T_XREF, T_ANCHOR, T_IDX, T_FOOT, T_RAW, T_IMG, T_UI] {
        w[k] = 0;
      }
    }
    let k = self.r.weighted(&w);
    let nl = cx.nl && self.cfg.nl && self.r.chance(1, 7);
    if nl {
      v.push(In::Sp(true));
      v.push(In::Txt(self.w()));
      if k == T_WORD {
        return;
      }
    }
    // most tokens are set off by a blank
    let mut sp = |v: &mut Vec<In>| v.push(In::Sp(false));
    match k {
      T_FMT => {
        sp(v);
        let paren = self.r.chance(1, 10);
        if paren {
          v.push(In::Txt("(".into()));
        }
        if let Some(f) = self.fmt(cx, false) {
          v.push(f);
        } else {
          let w = self.w();
          v.push(In::Txt(w));
        }
        if paren {
          v.push(In::Txt(")".into()));
        }
        self.ends_punct(v, cx);
      }
      T_UNC => {
        sp(v);
        let (a, b) = (self.w(), self.w());
        v.push(In::Txt(a));
        let f = self.fmt(cx, true);
        if let Some(f) = f {
          v.push(f);
        }
        v.push(In::Txt(b));
      }
      T_LITMONO => {
        self.tick("literal_mono");
        sp(v);
        let a = self.w();
        let b = self.w();
        let m = self.r.pick_s(&["*", "_", "#", "<", ">", "&", "--", "(C)", "{x}", "...", "'"]);
        let e = if cx.cell { "" } else { "*" };
        v.push(In::LitMono(format!("{a}{m}{b}{e}")));
      }
      T_PASSTXT => {
        self.tick("pass_text");
        sp(v);
        let a = self.w();
        let b = self.w();
        let m = self.r.pick_s(&["*c*", "_d_", "#e#", " < ", " & ", "(C)", "{nope}", "..."]);
        v.push(In::PassTxt(format!("{a}{m}{b}")));
      }
      T_RAW => {
        self.tick("raw_pass");
        sp(v);
        let a = self.w();
        let t = self.r.pick_s(&["u", "del", "ins"]);
        let mac = self.r.chance(1, 2);
        v.push(In::RawPass(format!("<{t}>{a}</{t}>"), mac));
      }
      T_URL => {
        self.tick("url");
        sp(v);
        let url = self.url();
        match self.r.below(4) {
          0 => {
            let role = Some(format!("r{}", self.r.below(5)));
            let text = Some(self.inline(2, TEXT));
            let x = self.link_x(cx);
            v.push(In::Link { url, text, role, blank: false, mac: false, x });
          }
          1 => {
            let text = Some(self.inline(3, Cx2 { cell: cx.cell, ..TEXT }));
            let blank = self.r.chance(1, 3);
            let x = self.link_x(cx);
            v.push(In::Link { url, text, role: None, blank, mac: false, x });
          }
          2 => {
            let x = self.link_x(cx);
            v.push(In::Link { url, text: None, role: None, blank: false, mac: false, x });
          }
          _ => v.push(In::Link { url, text: None, role: None, blank: false, mac: false, x: LinkX::default() }),
        }
      }
      T_LINK => {
        self.tick("link_macro");
        sp(v);
        let a = self.w();
        let b = self.w();
        let url = match self.r.below(4) {
          0 => format!("{a}.html"),
          1 => format!("../{a}/{b}.pdf"),
          2 => format!("{a}/{b}.html#frag{}", self.r.below(9)),
          _ => self.url(),
        };
        let text = if self.r.chance(1, 4) { None } else { Some(self.inline(3, Cx2 { cell: cx.cell, ..TEXT })) };
        let role = if text.is_some() && self.r.chance(1, 4) { Some(format!("r{}", self.r.below(5))) } else { None };
        let blank = text.is_some() && role.is_none() && self.r.chance(1, 5);
        let x = self.link_x(cx);
        v.push(In::Link { url, text, role, blank, mac: true, x });
      }
      T_MAIL => {
        self.tick("mail");
        sp(v);
        let a = self.w();
        let text = if self.r.chance(1, 2) { None } else { Some(self.inline(2, TEXT)) };
        let mut more = [None, None];
        if self.r.chance(1, 3) {
          for m in &mut more {
            if self.r.chance(1, 2) {
              let (a, b) = (self.words(1, 3), self.w());
              *m = Some(if self.r.chance(1, 3) { format!("{a}{}{b}", self.r.pick_s(&[", ", "/", "? ", ": "])) } else { a });
            }
          }
        }
        v.push(In::Mail { addr: format!("{a}@example.org"), text, more });
      }
      T_XREF => {
        self.tick("xref");
        sp(v);
        let known: Vec<String> = self.refs.keys().cloned().collect();
        let id = if !known.is_empty() && self.r.chance(1, 2) {
          known[self.r.below(known.len())].clone()
        } else if !self.pending.is_empty() && self.r.chance(1, 2) {
          self.pending[self.r.below(self.pending.len())].clone()
        } else {
          let id = self.new_id();
          self.pending.push(id.clone());
          id
        };
        self.used.push(id.clone());
        let text = if self.r.chance(1, 2) { None } else { Some(self.inline(2, Cx2 { cell: cx.cell, ..TEXT })) };
        let mac = self.r.chance(1, 2);
        v.push(In::Xref { id, text, mac });
      }
      T_FOOT => {
        self.tick("footnote");
        if !matches!(v.last(), Some(In::Txt(_))) {
          sp(v);
          let a = self.w();
          v.push(In::Txt(a));
        }
        if !self.foot_ids.is_empty() && self.r.chance(1, 3) {
          let id = self.foot_ids[self.r.below(self.foot_ids.len())].clone();
          v.push(In::FootRef(id));
          return;
        }
        let kids = self.inline(4, Cx2 { cell: cx.cell, ..TEXT });
        let id = if self.r.chance(1, 3) {
          let id = format!("fn{}", self.n);
          self.foot_new.push(id.clone());
          Some(id)
        } else {
          None
        };
        v.push(In::Foot { id, kids });
      }
      T_ANCHOR => {
        self.tick("anchor");
        sp(v);
        let id = self.place_id();
        self.refs.insert(id.clone(), vec![]);
        let mac = self.r.chance(1, 3);
        v.push(In::Anchor(id, mac));
        let a = self.w();
        v.push(In::Txt(a));
      }
      T_ATTR => {
        if self.attrs.is_empty() {
          sp(v);
          let a = self.w();
          v.push(In::Txt(a));
          return;
        }
        self.tick("attr_ref");
        sp(v);
        let (n, val) = self.r.pick(&self.attrs).clone();
        v.push(In::AttrRef(n, val));
      }
      T_IMG => {
        self.tick("inline_image");
        sp(v);
        let a = self.w();
        let ext = self.r.pick_s(&["png", "jpg", "svg"]);
        let dir = self.r.pick_s(&["", "img/", "a-b_c/"]);
        let target = format!("{dir}{}{a}.{ext}", self.r.pick_s(&["", "my-", "my_"]));
        let alt = if self.r.chance(1, 2) { Some(self.words(1, 2)) } else { None };
        let w = if alt.is_some() && self.r.chance(1, 3) { Some(self.r.range(1, 900) as u32) } else { None };
        let roles = if self.r.chance(1, 4) { vec![format!("r{}", self.r.below(4))] } else { vec![] };
        v.push(In::Img { target, alt, w, roles });
      }
      T_UI => {
        self.tick("ui_macro");
        sp(v);
        match self.r.below(3) {
          0 => {
            let n = self.r.range(1, 3);
            let ks = (0..n).map(|_| self.r.pick_s(&["Ctrl", "Shift", "T", "F11", "Alt", "Enter"]).to_string()).collect();
            v.push(In::Kbd(ks));
          }
          1 => {
            let t = self.words(1, 2);
            v.push(In::Btn(t));
          }
          _ => {
            let m = self.w();
            let n = self.r.below(3);
            let it = (0..n).map(|_| self.words(1, 2)).collect();
            v.push(In::Menu(m, it));
          }
        }
      }
      T_IDX => {
        self.tick("index_term");
        sp(v);
        if self.r.chance(1, 2) {
          let k = vec![In::Txt(self.words(1, 2))];
          let mac = self.r.chance(1, 3);
          v.push(In::IdxVis(k, mac));
        } else {
          let n = self.r.range(1, 3);
          let k = (0..n).map(|_| self.w()).collect();
          v.push(In::IdxHid(k));
          let a = self.w();
          v.push(In::Txt(a));
        }
      }
      T_BR => {
        self.tick("line_break");
        v.push(In::Br);
        let a = self.w();
        v.push(In::Txt(a));
      }
      T_QUOTE => {
        self.tick("quotes");
        sp(v);
        let kids = self.inline(3, Cx2 { nl: false, foot: false, in_text: true, open: cx.open | 4, ..cx });
        v.push(if self.r.chance(1, 2) { In::Dq(kids) } else { In::Sq(kids) });
      }
      T_SYM => {
        self.tick("replacement");
        match self.r.below(10) {
          9 => {
            // no apostrophe: it does not follow a letter or digit
            sp(v);
            let (a, b) = (self.w(), self.w());
            v.push(In::Txt(match self.r.below(3) {
              0 => format!("({a})'{b}"),
              1 => format!("{a}/'{b}"),
              _ => format!("{a} '{b}"),
            }));
          }
          0 => {
            v.push(In::Sym(" -- ", "\u{2009}\u{2014}\u{2009}"));
            let a = self.w();
            v.push(In::Txt(a));
          }
          1 => {
            let (a, b) = (self.w(), self.w());
            sp(v);
            v.push(In::Txt(a));
            v.push(In::Sym("--", "\u{2014}\u{200b}"));
            v.push(In::Txt(b));
          }
          2 => {
            let (a, b) = (self.r.pick_s(&["we", "don", "it"]), self.r.pick_s(&["t", "ll", "s"]));
            sp(v);
            v.push(In::Txt(a.into()));
            v.push(In::Sym("'", "\u{2019}"));
            v.push(In::Txt(b.into()));
          }
          3 => {
            sp(v);
            let a = self.w();
            v.push(In::Txt(a));
            v.push(In::Sym("...", "\u{2026}\u{200b}"));
          }
          k => {
            sp(v);
            let s = match k {
              4 => ("->", "\u{2192}"),
              5 if !cx.in_text => ("=>", "\u{21d2}"),
              6 => ("(C)", "\u{a9}"),
              7 => ("(R)", "\u{ae}"),
              _ => ("(TM)", "\u{2122}"),
            };
            v.push(In::Sym(s.0, s.1));
            sp(v);
            let a = self.w();
            v.push(In::Txt(a));
          }
        }
      }
      T_ESC => {
        self.tick("escape");
        sp(v);
        let a = self.w();
        let s = match self.r.below(7) {
          0 => format!("*{a}*"),
          1 => format!("_{a}_"),
          2 => format!("`{a}`"),
          3 => format!("#{a}#"),
          4 => format!("{{{a}}}"),
          5 => "(C)".to_string(),
          _ => format!("https://{a}.org"),
        };
        v.push(In::Esc(format!("\\{s}"), s));
      }
      T_ROLE => {
        self.tick("roled_format");
        sp(v);
        let kids = self.inline(2, Cx2 { nl: false, foot: false, in_text: true, open: 0xff, ..cx });
        let f = *self.r.pick(&[F::Bold, F::Ital, F::Mono, F::Hi]);
        let id = if self.r.chance(1, 4) {
          let id = self.new_id();
          Some(id)
        } else {
          None
        };
        let roles = (0..self.r.range(id.is_none() as usize, 2)).map(|i| format!("r{}{i}", self.r.below(9))).collect();
        v.push(In::Fmt { f, uncon: false, id, roles, kids });
      }
      T_SPECIAL => {
        self.tick("special_char");
        sp(v);
        let (a, b) = (self.w(), self.w());
        let c = self.r.pick_s(&["<", ">", "&", " < ", " > ", " & ", "<>", "&&", "\"", "=", "/", "%", "@ ", "$", "~ ", "+ ", "! ", "é", "日本", "🎉", "ß"]);
        let c = if cx.in_text && c == "\"" { "%" } else { c };
        v.push(In::Txt(format!("{a}{c}{b}")));
      }
      _ => {
        sp(v);
        let a = self.w();
        v.push(In::Txt(a));
        self.ends_punct(v, cx);
      }
    }
  }

  fn url(&mut self) -> String {
    let a = self.w();
    let b = self.w();
    let sch = self.r.pick_s(&["https", "http", "ftp", "irc"]);
    let tail = self.r.pick_s(&["", "/", "/index.html", "/?q=1", "/x#frag", "/a-b.c", "/?a=1&b=2"]);
    let t = format!("{sch}://{a}.example.org{}{tail}", if tail.starts_with('/') && self.r.chance(1, 2) { format!("/{b}") } else { String::new() });
    t
  }

  fn fmt(&mut self, cx: Cx2, uncon: bool) -> Option<In> {
    let all = [F::Bold, F::Ital, F::Mono, F::Hi, F::Sub, F::Sup];
    let avail: Vec<(usize, F)> =
      all.into_iter().enumerate().filter(|(i, f)| cx.open & (1 << i) == 0 && !(uncon && matches!(f, F::Sub | F::Sup))).collect();
    if avail.is_empty() {
      return None;
    }
    let (i, f) = avail[self.r.below(avail.len())];
    self.tick(match f {
      F::Bold => "bold",
      F::Ital => "italic",
      F::Mono => "mono",
      F::Hi => "highlight",
      F::Sub => "subscript",
      F::Sup => "superscript",
    });
    let kids = if matches!(f, F::Sub | F::Sup) {
      vec![In::Txt(self.w())]
    } else {
      let inner = Cx2 { open: cx.open | (1 << i), foot: false, nl: cx.nl && !uncon, in_text: true, ..cx };
      // a nested format may directly touch its parent's marks
      if self.r.chance(1, 4) && cx.open.count_ones() < 3 {
        match self.fmt(inner, false) {
          Some(k) if !uncon => vec![k],
          _ => self.inline(3, inner),
        }
      } else {
        self.inline(3, inner)
      }
    };
    Some(In::Fmt { f, uncon, id: None, roles: vec![], kids })
  }

  pub fn meta(&mut self, title_ok: bool) -> Meta {
    let mut m = Meta::default();
    if self.cfg.meta == 0 || !self.r.chance(self.cfg.meta, 10) {
      return m;
    }
    if self.r.chance(1, 2) {
      m.id = Some(self.place_id());
    }
    if self.r.chance(1, 3) {
      let n = self.r.range(1, 2);
      m.roles = (0..n).map(|i| format!("role{}{i}", self.r.below(9))).collect();
    }
    if title_ok && self.r.chance(1, 2) {
      m.title = Some(self.inline(4, TITLE));
    }
    m.form = self.r.below(3) as u8;
    if let Some(id) = m.id.clone() {
      if m.form == 1 && self.r.chance(1, 3) {
        m.reftext = Some(self.words(1, 2));
      }
      let text = match &m.reftext {
        Some(r) => vec![In::Txt(r.clone())],
        None => m.title.clone().unwrap_or_default(),
      };
      self.refs.insert(id, text);
    }
    m
  }

  pub fn code_lines(&mut self, indent_first: bool, cell: bool) -> Vec<String> {
    let n = self.r.range(1, 5);
    let mut v = vec![];
    for i in 0..n {
      let mid = i > 0 && i + 1 < n;
      if mid && self.r.chance(1, 6) {
        v.push(String::new());
        continue;
      }
      let ind = if indent_first || i > 0 { " ".repeat(self.r.below(5)) } else { String::new() };
      let a = self.w();
      let b = self.w();
      let m = self.r.pick_s(&[
        " = ", " *bold* ", " _it_ ", " < ", " && ", " -> ", "(C)", " `code` ", " {attr} ", "...", " -- ", "  ", " \\n ", " <<x>> ", "'s ",
        " [.r]#q# ", " // ", " | ", " é ", " http://x.org ", " footnote:[f] ", " ((t)) ", "\t", " \\*e* ", " +p+ ", " :: ",
      ]);
      // (would start a cell, or be resolved in the table)
      let m = if cell && matches!(m, " | " | " {attr} ") { " ; " } else { m };
      v.push(format!("{ind}{a}{m}{b}"));
    }
    v
  }

  pub fn blocks(&mut self, depth: usize, max: usize, cell: bool) -> Vec<Blk> {
    let n = self.r.range(1, max.max(1));
    let mut v: Vec<Blk> = vec![];
    for _ in 0..n {
      let b = self.block(depth, cell);
      // adjacent lists of one kind would merge; comments keep them apart
      if let (Some(p), k) = (v.last(), &b.kind) {
        let lp = matches!(p.kind, Kind::Ulist(_) | Kind::Olist(_) | Kind::Dlist(_) | Kind::Callouts { .. } | Kind::Biblio(_));
        let lk = matches!(k, Kind::Ulist(_) | Kind::Olist(_) | Kind::Dlist(_) | Kind::LitPara(_) | Kind::Biblio(_));
        if lp && lk {
          // NB: comment lines in tables are dropped before the cells are parsed
          let kind = if cell { Kind::Para(vec![In::Txt(self.w())]) } else { Kind::Hidden("//".to_string()) };
          v.push(Blk { meta: Meta::default(), kind });
        }
      }
      v.push(b);
    }
    v
  }

  fn attr_text(&mut self) -> Option<String> {
    if self.r.chance(1, 2) { Some(self.words(1, 3)) } else { None }
  }

  pub fn block(&mut self, depth: usize, cell: bool) -> Blk {
    let mut w = self.cfg.blk;
    if depth == 0 {
      for k in [B_EXAMPLE, B_SIDEBAR, B_QUOTE, B_OPEN, B_ADMBLOCK, B_ULIST, B_OLIST, B_DLIST, B_TABLE, B_BIBLIO] {
        w[k] = 0;
      }
    }
    if cell {
      for k in [B_TABLE, B_LITPARA, B_RAW, B_HIDDEN, B_VERSE, B_BIBLIO] {
        w[k] = 0;
      }
    }
    if w.iter().all(|x| *x == 0) {
      w[B_PARA] = 1;
    }
    let k = self.r.weighted(&w);
    self.block_of(k, depth, cell)
  }

  pub fn block_of(&mut self, k: usize, depth: usize, cell: bool) -> Blk {
    let body = if cell { CELL } else { BODY };
    let mut meta = match k {
      B_RAW | B_PAGE | B_HIDDEN => Meta::default(),
      _ => self.meta(!matches!(k, B_BREAK | B_DISCRETE | B_CALLOUT)),
    };
    let kind = match k {
      B_LITPARA => {
        self.tick("literal_para");
        let n = self.r.range(1, 3);
        let lines = (0..n).map(|i| format!("{}{}", if i > 0 { self.r.pick_s(&["", "", " ", "    "]) } else { "" }, self.words(1, 3))).collect();
        Kind::LitPara(lines)
      }
      B_LISTING => {
        self.tick("listing");
        let style = self.r.below(5) as u8;
        let lang = if matches!(style, 1 | 3 | 4) && (style == 4 || self.r.chance(3, 4)) {
          Some(self.r.pick_s(&["rust", "ruby", "c", "json"]).to_string())
        } else {
          None
        };
        let mut lines = self.code_lines(style != 2, cell);
        if style == 2 {
          lines.retain(|l| !l.is_empty() && !l.contains("::"));
          match lines.first_mut() {
            Some(l) => *l = l.trim_start().to_string(),
            None => lines.push(self.w()),
          }
        }
        Kind::Listing { style, lang, lines }
      }
      B_LITERAL => {
        self.tick("literal");
        let style = self.r.below(2) as u8;
        let mut lines = self.code_lines(style != 1, cell);
        if style == 1 {
          lines.retain(|l| !l.is_empty() && !l.contains("::"));
          match lines.first_mut() {
            Some(l) => *l = l.trim_start().to_string(),
            None => lines.push(self.w()),
          }
        }
        Kind::Literal { lines, style }
      }
      B_RAW => {
        self.tick("raw_block");
        let a = self.w();
        Kind::RawBlock(format!("<div class=\"raw\"><b>{a}</b> *x* &amp; (C)</div>"))
      }
      B_EXAMPLE | B_SIDEBAR | B_QUOTE | B_OPEN => {
        self.tick("container");
        let c = [C::Example, C::Sidebar, C::Quote, C::Open][k - B_EXAMPLE];
        let (attr, cite) = if c == C::Quote { (self.attr_text(), self.attr_text()) } else { (None, None) };
        let collapsible = if c == C::Example && self.r.chance(1, 4) { self.r.range(1, 2) as u8 } else { 0 };
        // only example delimiters can vary in length; the others do not nest
        let save = self.cfg.blk;
        if c != C::Example {
          self.cfg.blk[k] = 0;
        }
        if c == C::Quote {
          // shares its delimiter
          self.cfg.blk[B_VERSE] = 0;
        }
        let kids = self.blocks(depth.saturating_sub(1), 3, cell);
        self.cfg.blk = save;
        Kind::Container { k: c, attr, cite, collapsible, kids }
      }
      B_ADMPARA => {
        self.tick("admonition_para");
        let k = self.r.below(5);
        let v = self.inline(8, body);
        Kind::AdmPara(k, v)
      }
      B_ADMBLOCK => {
        self.tick("admonition_block");
        let k = self.r.below(5);
        let c = if self.r.chance(1, 4) && self.cfg.blk[B_OPEN] > 0 { C::Open } else { C::Example };
        let save = self.cfg.blk[B_OPEN];
        if c == C::Open {
          self.cfg.blk[B_OPEN] = 0;
        }
        let kids = self.blocks(depth.saturating_sub(1), 3, cell);
        self.cfg.blk[B_OPEN] = save;
        Kind::AdmBlock(k, kids, c)
      }
      B_VERSE => {
        self.tick("verse");
        let (attr, cite) = (self.attr_text(), self.attr_text());
        let delim = self.r.chance(1, 2);
        let n = self.r.range(1, 4);
        let mut lines: Vec<Vec<In>> = vec![];
        for i in 0..n {
          if delim && i > 0 && i + 1 < n && self.r.chance(1, 5) {
            lines.push(vec![]);
          } else {
            let l = self.inline(4, Cx2 { nl: false, foot: false, ..body });
            lines.push(l);
          }
        }
        Kind::Verse { attr, cite, lines, delim }
      }
      B_ULIST => {
        let mut l = self.ulist_in(depth.saturating_sub(1), Lists::default(), cell).unwrap();
        l.meta = meta.clone();
        return l;
      }
      B_OLIST => {
        let mut l = self.olist_in(depth.saturating_sub(1), Lists::default(), cell).unwrap();
        l.meta = meta.clone();
        return l;
      }
      B_DLIST => {
        let mut l = self.dlist_in(depth.saturating_sub(1), Lists::default(), cell).unwrap();
        l.meta = meta.clone();
        return l;
      }
      B_TABLE => {
        let t = self.table(depth);
        Kind::Table(t)
      }
      B_IMAGE => {
        self.tick("image");
        let a = self.w();
        let ext = self.r.pick_s(&["png", "jpg", "gif"]);
        let target = format!("{}{a}.{ext}", self.r.pick_s(&["", "img/", "my-", "my_"]));
        let alt = if self.r.chance(1, 2) { Some(self.words(1, 3)) } else { None };
        let wd = if self.r.chance(1, 3) { Some(self.r.range(1, 999) as u32) } else { None };
        let h = if wd.is_some() && self.r.chance(1, 2) { Some(self.r.range(1, 999) as u32) } else { None };
        let link = if self.r.chance(1, 4) { Some(self.url()) } else { None };
        Kind::Image { target, alt, w: wd, h, link: link.filter(|l| !l.contains('&')) }
      }
      B_BREAK => {
        self.tick("break");
        Kind::Break
      }
      B_PAGE => {
        Kind::PageBreak
      }
      B_DISCRETE => {
        self.tick("discrete");
        let l = self.r.range(1, 5) as u8;
        let t = self.inline(4, TITLE);
        if meta.id.is_none() && !simple_title(&t) {
          meta.id = Some(self.place_id());
        }
        if let Some(id) = &meta.id {
          self.refs.insert(id.clone(), t.clone());
          meta.reftext = None;
        }
        Kind::Discrete(l, t)
      }
      B_HIDDEN => {
        self.tick("hidden");
        let a = self.words(1, 3);
        let s = match self.r.below(3) {
          0 => format!("// hidden {a}"),
          1 => format!("////\nhidden {a}\n\n* hidden\n////"),
          _ => format!("[comment]\nhidden {a}\nhidden"),
        };
        Kind::Hidden(s)
      }
      B_CALLOUT => {
        self.tick("callouts");
        let n = self.r.range(1, 4);
        let auto = self.r.chance(1, 3);
        let mut lines = vec![];
        let mut num = 1;
        while num <= n as u32 {
          let l = format!("{}{}", self.w(), self.r.pick_s(&[" = 1", "()", " < 2", ""]));
          let k = if self.r.chance(1, 5) { 2 } else { self.r.below(2) };
          let mut nums = vec![];
          for _ in 0..k {
            if num <= n as u32 {
              nums.push(num);
              num += 1;
            }
          }
          lines.push((l, nums));
        }
        let items = (0..n).map(|_| self.inline(5, Cx2 { nl: false, ..body })).collect();
        Kind::Callouts { lines, items, auto }
      }
      B_QUOTED => {
        self.tick("quoted_para");
        let form = self.r.below(3) as u8;
        let text = self.inline(8, Cx2 { nl: form > 0, ..body });
        let (mut attr, mut cite) = (self.attr_text(), self.attr_text());
        if form == 2 {
          (attr, cite) = (None, None);
        } else if attr.is_none() {
          cite = None;
          if form == 0 {
            attr = Some(self.words(1, 3));
          }
        }
        Kind::Quoted { form, text, attr, cite }
      }
      B_BIBLIO => {
        self.tick("bibliography");
        let n = self.r.range(1, 3);
        let mut items = vec![];
        for _ in 0..n {
          let id = self.place_id();
          let label = self.attr_text();
          let text = self.inline(4, Cx2 { nl: false, ..body });
          self.refs.insert(id.clone(), vec![In::Txt(format!("[{}]", label.as_ref().unwrap_or(&id)))]);
          items.push((id, label, text));
        }
        Kind::Biblio(items)
      }
      _ => {
        self.tick("para");
        let v = self.inline(14, body);
        Kind::Para(v)
      }
    };
    Blk { meta, kind }
  }

  fn item(&mut self, depth: usize, lists: Lists, cell: bool, check: bool) -> Item {
    let body = if cell { CELL } else { BODY };
    let text = self.inline(6, body);
    let (nested, attached) = self.item_rest(depth, lists, cell);
    // after nested lists a continuation would attach to the innermost item, so
    // attachments of the outer item come first
    let att_first = !nested.is_empty();
    let check = if check { Some(self.r.chance(1, 2)) } else { None };
    let mut nested = nested;
    if !attached.is_empty() {
      plain_list(&mut nested);
    }
    Item { text, check, nested, attached, att_first, blank_after: self.r.chance(1, 4) }
  }

  fn item_rest(&mut self, depth: usize, l: Lists, cell: bool) -> (Vec<Blk>, Vec<Blk>) {
    let mut nested = vec![];
    let mut attached = vec![];
    if depth > 0 && self.r.chance(2, 5) {
      let mut opts = vec![];
      if self.cfg.blk[B_ULIST] > 0 {
        opts.push(0);
      }
      if self.cfg.blk[B_OLIST] > 0 {
        opts.push(1);
      }
      if self.cfg.blk[B_DLIST] > 0 {
        opts.push(2);
      }
      if !opts.is_empty() {
        let b = match opts[self.r.below(opts.len())] {
          0 => self.ulist_in(depth - 1, l, cell),
          1 => self.olist_in(depth - 1, l, cell),
          _ => self.dlist_in(depth - 1, l, cell),
        };
        nested.extend(b);
      }
    }
    if self.r.chance(1, 4) {
      self.tick("attached");
      let n = self.r.range(1, 2);
      for _ in 0..n {
        let mut ks = vec![B_PARA];
        for k in [B_LISTING, B_LITERAL, B_ADMPARA, B_IMAGE] {
          if self.cfg.blk[k] > 0 && !cell {
            ks.push(k);
          }
        }
        if depth > 0 {
          for k in [B_EXAMPLE, B_SIDEBAR, B_QUOTE, B_OPEN, B_TABLE] {
            if self.cfg.blk[k] > 0 && !cell {
              ks.push(k);
            }
          }
        }
        let k = ks[self.r.below(ks.len())];
        let mut b = self.block_of(k, depth.saturating_sub(1), cell);
        if let Kind::Listing { style, .. } = &mut b.kind {
          if *style == 3 {
            *style = 0;
          }
        }
        if let Kind::Listing { style: 0, lang, .. } = &mut b.kind {
          *lang = None;
        }
        attached.push(b);
      }
    }
    (nested, attached)
  }

  fn n_items(&mut self) -> usize {
    self.r.range(1, 4)
  }

  fn ulist_in(&mut self, depth: usize, l: Lists, cell: bool) -> Option<Blk> {
    let dash = !l.dash && (l.u >= 5 || self.r.chance(1, 4));
    if !dash && l.u >= 5 {
      return None;
    }
    self.tick("ulist");
    let inner = if dash { Lists { dash: true, ..l } } else { Lists { u: l.u + 1, ..l } };
    let n = self.n_items();
    let check = self.r.chance(1, 6);
    let interactive = check && self.r.chance(1, 4);
    let style = if self.r.chance(1, 10) { Some(self.r.pick_s(&["square", "circle", "disc", "none", "no-bullet", "unstyled"])) } else { None };
    let items = (0..n).map(|_| { let c = check && self.r.chance(3, 4); self.item(depth, inner, cell, c) }).collect();
    Some(Blk { meta: Meta::default(), kind: Kind::Ulist(UList { dash, depth: inner.u, style, interactive, items }) })
  }
  fn olist_in(&mut self, depth: usize, l: Lists, cell: bool) -> Option<Blk> {
    let explicit = !l.digit && (l.o >= 5 || self.r.chance(1, 5));
    if !explicit && l.o >= 5 {
      return None;
    }
    self.tick("olist");
    let inner = if explicit { Lists { digit: true, ..l } } else { Lists { o: l.o + 1, ..l } };
    let n = self.n_items();
    let items = (0..n).map(|_| self.item(depth, inner, cell, false)).collect();
    let start = if self.r.chance(1, 8) { Some(self.r.range(0, 30) as u32) } else { None };
    let style = if self.r.chance(1, 8) {
      Some(self.r.pick_s(&["arabic", "decimal", "loweralpha", "upperalpha", "lowerroman", "upperroman", "lowergreek"]))
    } else {
      None
    };
    let reversed = self.r.chance(1, 12);
    let visual = if explicit { 1 } else { inner.o };
    Some(Blk { meta: Meta::default(), kind: Kind::Olist(OList { depth: inner.o, visual, start, style, reversed, explicit, items }) })
  }
  fn dlist_in(&mut self, depth: usize, l: Lists, cell: bool) -> Option<Blk> {
    let semi = !l.semi && (l.d >= 3 || self.r.chance(1, 6));
    if !semi && l.d >= 3 {
      return None;
    }
    let lists = if semi { Lists { semi: true, ..l } } else { Lists { d: l.d + 1, ..l } };
    let style = if self.r.chance(1, 4) { self.r.range(1, 2) as u8 } else { 0 };
    self.tick("dlist");
    let n = self.n_items();
    let body = if cell { CELL } else { BODY };
    let mut items = vec![];
    for _ in 0..n {
      let nt = if self.r.chance(1, 5) { 2 } else { 1 };
      let mut terms: Vec<Vec<In>> = (0..nt).map(|_| self.inline(2, Cx2 { foot: false, ..TITLE })).collect();
      for t in &mut terms {
        // `&word;` is a character reference, also before another semicolon
        if semi && format!("{t:?}").contains('&') {
          *t = vec![In::Txt(self.w())];
        }
      }
      let text = if self.r.chance(5, 6) { Some(self.inline(6, body)) } else { None };
      let (nested, attached) = self.item_rest(depth, lists, cell);
      let attached = if nested.is_empty() { attached } else { vec![] };
      let below = self.r.chance(1, 3);
      items.push(DItem { terms, text, below, nested, attached, blank_after: self.r.chance(1, 4) });
    }
    let last = items.last_mut().unwrap();
    if last.text.is_none() {
      last.text = Some(self.inline(3, body));
    }
    // an item without text would share its description with the next term
    for it in items.iter_mut() {
      if it.text.is_none() && it.nested.is_empty() && it.attached.is_empty() {
        let t = self.inline(3, body);
        it.text = Some(t);
      }
    }
    let marker = if semi { 3 } else { lists.d - 1 };
    Some(Blk { meta: Meta::default(), kind: Kind::Dlist(DList { marker, style, items }) })
  }

  pub fn table(&mut self, depth: usize) -> Tbl {
    self.table_of(depth, false)
  }

  fn table_of(&mut self, depth: usize, nested: bool) -> Tbl {
    self.tick("table");
    let nc = self.r.range(1, 4);
    let nr = self.r.range(1, 4);
    let explicit_cols = self.r.chance(1, 2);
    let mut widths: Vec<u32> = (0..nc).map(|_| self.r.range(1, 5) as u32).collect();
    if nc == 1 {
      widths[0] = 1; // a lone number is a count of columns
    }
    let pick_h = |r: &mut Rng| if r.chance(1, 4) { Some(*r.pick(&['<', '^', '>'])) } else { None };
    let (mut col_style, mut col_h, mut col_v) = (vec![None; nc], vec![None; nc], vec![None; nc]);
    if explicit_cols {
      for i in 0..nc {
        col_style[i] = if self.r.chance(1, 4) { Some(*self.r.pick(&['e', 's', 'm', 'h', 'd', 'l', 'a'])) } else { None };
        col_h[i] = pick_h(self.r);
        col_v[i] = pick_h(self.r);
      }
    }
    let col_auto: Vec<bool> = if explicit_cols && self.r.chance(1, 8) { (0..nc).map(|_| self.r.chance(1, 2)).collect() } else { vec![false; nc] };
    let header = self.r.chance(1, 3);
    let footer = nr > header as usize && self.r.chance(1, 5);
    let implicit_header = header && nr > 1 && self.r.chance(1, 2);
    let format = if nested || self.r.chance(3, 4) { 'p' } else { *self.r.pick(&['c', 't', 'd']) };
    let data = format != 'p';
    let by_delim = matches!(format, 'c' | 'd') && self.r.chance(1, 2);
    let sep = match format {
      'p' if nested => '!',
      'p' => if self.r.chance(1, 10) { *self.r.pick(&['\u{a6}', '\u{a7}']) } else { '|' },
      'c' => if self.r.chance(1, 6) { ';' } else { ',' },
      't' => '\t',
      _ => if self.r.chance(1, 6) { ';' } else { ':' },
    };
    let simple = nested || format == 'd';
    // without cols= the first line fixes the column count: a row per line
    let layout = if explicit_cols && !data { self.r.below(2) as u8 } else { 0 };
    let body_last = (nr - 1).saturating_sub(footer as usize);
    let mut busy = vec![0u32; nc];
    let mut rows = vec![];
    for ri in 0..nr {
      let is_head = header && ri == 0;
      let mut row: Vec<Cell> = vec![];
      let mut col = 0;
      while col < nc {
        if busy[col] > 0 {
          busy[col] -= 1;
          col += 1;
          continue;
        }
        let free = busy[col..].iter().take_while(|b| **b == 0).count();
        let mut c = Cell { paras: vec![], style: None, halign: None, valign: None, colspan: 1, rowspan: 1, lit: vec![], blocks: vec![], dup: 1 };
        if !is_head && !data && self.r.chance(1, 5) {
          c.style = Some(*self.r.pick(&['e', 's', 'm', 'h', 'l', 'a', 'd']));
        }
        if !data && self.r.chance(1, 8) {
          c.halign = pick_h(self.r);
          c.valign = pick_h(self.r);
        }
        if !data && free > 1 && self.r.chance(1, 8) {
          c.colspan = self.r.range(2, free) as u32;
        }
        // some column has to stay for the next row
        let whole = busy[col + c.colspan as usize..].iter().all(|b| *b > 1) && busy[..col].iter().all(|b| *b > 0);
        if !data && !is_head && ri < body_last && !whole && self.r.chance(1, 7) {
          c.rowspan = self.r.range(2, body_last - ri + 1) as u32;
        }
        match c.style.or(if is_head { None } else { col_style[row.len()] }) {
          Some('l') => {
            c.lit = vec![self.words(1, 2), self.words(1, 2)];
            if layout == 0 {
              c.lit.truncate(1);
            }
          }
          Some('a') if layout == 1 && depth > 0 && !simple => {
            c.blocks = self.blocks(depth.saturating_sub(1), 2, true);
            if self.r.chance(1, 4) {
              let t = self.table_of(0, true);
              c.blocks.push(Blk { meta: Meta::default(), kind: Kind::Table(t) });
            }
          }
          Some('a') => {
            let v = if simple { vec![In::Txt(self.words(1, 3))] } else { self.inline(3, Cx2 { nl: false, ..CELL }) };
            c.blocks = vec![Blk { meta: Meta::default(), kind: Kind::Para(v) }];
          }
          _ if simple => {
            let mut w = self.words(1, 3);
            if format == 'd' && self.r.chance(1, 6) {
              w.push(sep);
              w.push_str(&self.w());
            }
            c.paras.push(vec![In::Txt(w)]);
          }
          _ => {
            let np = if layout == 1 && !is_head && self.r.chance(1, 4) { 2 } else { 1 };
            for _ in 0..np {
              let p = self.inline(3, Cx2 { nl: layout == 1 && !is_head, ..CELL });
              c.paras.push(p);
            }
          }
        }
        for b in busy[col..col + c.colspan as usize].iter_mut() {
          *b = c.rowspan - 1;
        }
        col += c.colspan as usize;
        row.push(c);
      }
      rows.push(row);
    }
    if !data && self.r.chance(1, 4) {
      self.duplicate(&mut rows, header as usize, explicit_cols, &col_style);
    }
    let noheader = !header && nr > 1 && self.r.chance(1, 10);
    let opt = |r: &mut Rng, xs: &[&'static str]| if r.chance(1, 5) { Some(r.pick_s(xs)) } else { None };
    Tbl {
      widths,
      col_style,
      col_h,
      col_v,
      header,
      footer,
      implicit_header,
      rows,
      layout,
      sep,
      format,
      by_delim,
      col_auto,
      cols_form: self.r.below(96) as u8,
      noheader,
      frame: opt(self.r, &["all", "none", "sides", "ends", "topbot"]),
      grid: opt(self.r, &["all", "none", "rows", "cols"]),
      stripes: opt(self.r, &["even", "odd", "hover", "all"]),
      float: opt(self.r, &["left", "right"]),
      width: if self.r.chance(1, 5) { Some(self.r.range(1, 100) as u32) } else { None },
      autowidth: self.r.chance(1, 6),
      explicit_cols,
      nested,
    }
  }

  /// some run of simple cells becomes one cell written n times
  fn duplicate(&mut self, rows: &mut [Vec<Cell>], head: usize, explicit_cols: bool, col_style: &[Option<char>]) {
    let at: Vec<(usize, usize)> = (0..rows.len()).flat_map(|r| (0..rows[r].len()).map(move |c| (r, c))).collect();
    let k = self.r.below(at.len());
    let n = self.r.range(2, 6).min(at.len() - k);
    let run = &at[k..k + n];
    let ends_first = !explicit_cols && run.iter().any(|p| p.0 == 0) && run.iter().any(|p| p.0 > 0);
    let in_head = run.iter().any(|p| p.0 < head);
    let literal = |p: &(usize, usize)| matches!(col_style[p.1], Some('l' | 'a'));
    if n < 2 || ends_first || in_head || run.iter().any(|p| rows[p.0][p.1].colspan > 1 || rows[p.0][p.1].rowspan > 1 || literal(p)) {
      return;
    }
    let w = self.words(1, 3);
    let first = &rows[run[0].0][run[0].1];
    let style = first.style.filter(|s| !matches!(s, 'l' | 'a'));
    let c = Cell { style, paras: vec![vec![In::Txt(w.clone())]], lit: vec![w], blocks: vec![], dup: 0, ..first.clone() };
    for p in run {
      rows[p.0][p.1] = c.clone();
    }
    rows[run[0].0][run[0].1].dup = n as u32;
  }

  /// blocks of a section; only here is every footnote defined so far sure to
  /// come earlier in the source than what is generated next
  fn top_blocks(&mut self, max: usize) -> Vec<Blk> {
    let mut v = self.blocks(self.cfg.max_depth, max, false);
    let new = std::mem::take(&mut self.foot_new);
    self.foot_ids.extend(new);
    if self.r.chance(1, 3) {
      let nodes = self.inline(4, TEXT);
      v.push(Blk { meta: Meta::default(), kind: Kind::Para(nodes) });
      let more = self.blocks(self.cfg.max_depth, 2, false);
      v.extend(more);
      let new = std::mem::take(&mut self.foot_new);
      self.foot_ids.extend(new);
    }
    v
  }

  pub fn sect(&mut self, level: u8, depth: usize) -> Sect {
    self.tick("section");
    let again = if self.r.chance(1, 2) { self.stash.pop() } else { None };
    let fresh = again.is_none();
    let title = again.unwrap_or_else(|| self.inline(4, TITLE));
    let id = if fresh && self.r.chance(1, 16) {
      // an explicit id that a later title would get
      let w = self.w();
      let later = vec![In::Txt(w)];
      let id = auto_id(&plain(&later));
      self.auto_ids.insert(id.clone(), 1);
      self.stash.push(later);
      self.tick("id of a later title");
      Some(id)
    } else if !simple_title(&title) || (fresh && self.r.chance(1, 3)) {
      Some(self.place_id())
    } else {
      None
    };
    let ref_id = id.clone().unwrap_or_else(|| {
      let base = auto_id(&plain(&title));
      let n = self.auto_ids.entry(base.clone()).or_insert(0);
      *n += 1;
      if *n > 1 { format!("{base}_{n}") } else { base }
    });
    let reftext = if self.r.chance(1, 8) { Some(self.words(1, 3)) } else { None };
    let ref_text = reftext.as_ref().map_or_else(|| title.clone(), |t| vec![In::Txt(t.clone())]);
    self.refs.insert(ref_id, ref_text);
    let form = self.r.below(3) as u8;
    if simple_title(&title) && self.r.chance(1, 12) {
      self.tick("title used again");
      self.stash.push(title.clone());
    }
    let roles = if self.r.chance(1, 8) { vec![format!("role{}", self.r.below(9))] } else { vec![] };
    let blocks = if self.r.chance(5, 6) { self.top_blocks(self.cfg.max_blocks.min(3)) } else { vec![] };
    let mut subs = vec![];
    if level < 5 && depth > 0 && self.r.chance(1, 2) {
      let n = self.r.range(1, 2);
      for _ in 0..n {
        subs.push(self.sect(level + 1, depth - 1));
      }
    }
    let setext = false; // two-line titles are not supported
    Sect { level, title, id, roles, blocks, subs, setext, reftext, form }
  }

  /// paragraphs that carry the ids still referenced but not placed
  pub fn leftovers(&mut self) -> Vec<Blk> {
    let mut v = vec![];
    for id in std::mem::take(&mut self.pending) {
      self.refs.insert(id.clone(), vec![]);
      let w = self.w();
      v.push(Blk { meta: Meta { id: Some(id), form: 1, ..Meta::default() }, kind: Kind::Para(vec![In::Txt(w)]) });
    }
    v
  }

  pub fn doc(&mut self) -> Doc {
    let mut attrs = vec![("experimental".to_string(), String::new())];
    let n = self.r.below(3);
    for i in 0..n {
      let name = format!("{}{i}", self.r.pick_s(&["attr", "my-attr", "a_b", "X"]));
      let val = self.words(1, 3);
      attrs.push((name.clone(), val.clone()));
      self.attrs.push((name, val));
    }
    for (k, vs) in [
      ("table-frame", &["all", "none", "sides", "ends", "topbot"]),
      ("table-grid", &["all", "none", "rows", "cols", "all"]),
      ("table-stripes", &["even", "odd", "hover", "all", "even"]),
    ] {
      if self.r.chance(1, 12) {
        attrs.push((k.to_string(), self.r.pick_s(vs).to_string()));
      }
    }
    let title = if self.r.chance(1, 2) { Some(self.inline(3, Cx2 { title: true, ..TEXT })) } else { None };
    let pre = if self.r.chance(2, 3) { self.top_blocks(self.cfg.max_blocks) } else { vec![] };
    let mut sects = vec![];
    if self.r.chance(2, 3) || pre.is_empty() {
      let n = self.r.range(1, 2);
      for _ in 0..n {
        sects.push(self.sect(1, 2));
      }
    }
    let mut d = Doc { title, attrs, preamble: pre, sects };
    // ids that are referenced, but whose place was discarded
    let placed = placed_ids(&expect(&d, &self.refs));
    self.pending.extend(std::mem::take(&mut self.used));
    self.pending.sort();
    self.pending.dedup();
    self.pending.retain(|id| !placed.contains(id));
    let left = self.leftovers();
    if !left.is_empty() {
      let mut left: Vec<Blk> = left;
      left.insert(0, Blk { meta: Meta::default(), kind: Kind::Hidden("//".into()) });
      match d.sects.last_mut() {
        Some(s) => {
          let mut s = s;
          while !s.subs.is_empty() {
            s = s.subs.last_mut().unwrap();
          }
          s.blocks.extend(left);
        }
        None => d.preamble.extend(left),
      }
    }
    d
  }
}

fn placed_ids(nodes: &[crate::html::Node]) -> std::collections::BTreeSet<String> {
  let mut ids = std::collections::BTreeSet::new();
  let mut todo: Vec<&crate::html::Node> = nodes.iter().collect();
  while let Some(n) = todo.pop() {
    if let crate::html::Node::El(e) = n {
      if let Some(id) = e.attr("id") {
        ids.insert(id.to_string());
      }
      todo.extend(e.kids.iter());
    }
  }
  ids
}

/// titles whose auto-generated id the model can predict
pub fn simple_title(v: &[In]) -> bool {
  v.iter().all(|i| match i {
    In::Txt(t) => !t.contains(['<', '_']),
    In::Sp(_) => true,
    In::Fmt { id: None, roles, kids, .. } => roles.is_empty() && simple_title(kids),
    _ => false,
  })
}

/// renders the expected DOM of a document
pub fn expect(d: &Doc, refs: &BTreeMap<String, Vec<In>>) -> Vec<crate::html::Node> {
  let table_attrs = d.attrs.iter().filter(|a| a.0.starts_with("table-")).cloned().collect();
  let mut dom = Dom { refs: Refs { text: refs.clone() }, table_attrs, ..Dom::default() };
  let v = dom.doc(d);
  canon(&v)
}

/// Every back reference to a footnote comes after the definition (a definition
/// may have been discarded together with the block it was generated for).
pub fn footnotes_ordered(src: &str) -> bool {
  let mut i = 0;
  while let Some(p) = src[i..].find("footnote:fn") {
    let at = i + p;
    let rest = &src[at..];
    let Some(b) = rest.find('[') else { return true };
    let name = &rest[..=b];
    if rest[b + 1..].starts_with(']') {
      let mut def = false;
      let mut j = 0;
      while let Some(q) = src[j..at].find(name) {
        if !src[j + q + name.len()..].starts_with(']') {
          def = true;
          break;
        }
        j += q + name.len();
      }
      if !def {
        return false;
      }
    }
    i = at + b + 1;
  }
  true
}

/// A list after an attached block can only be told from the next block when nothing
/// but its marker announces it: an attribute line would start a new attachment.
fn plain_list(nested: &mut [Blk]) {
  for b in nested {
    match &mut b.kind {
      Kind::Ulist(l) => {
        l.style = None;
        l.interactive = false;
      }
      Kind::Olist(l) => {
        l.start = None;
        l.style = None;
        l.reversed = false;
      }
      Kind::Dlist(l) => l.style = 0,
      _ => {}
    }
  }
}
