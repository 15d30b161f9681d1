//! C26: `subs` chooses the substitutions that apply.

use serde_json::json;

use crate::conv::Job;
use crate::html::Node;
use crate::model::{div, el, txt, word};
use crate::orch::*;
use crate::props::modelled::compare_with;
use crate::rng::Rng;

pub struct Subs;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum S {
  Special,
  Quotes,
  Attrs,
  Repl,
  Macros,
  Post,
  Callouts,
}
use S::*;

const NORMAL: [S; 6] = [Special, Quotes, Attrs, Repl, Macros, Post];
const NAMES: [&str; 10] = [
  "none", "normal", "verbatim", "specialchars", "callouts", "quotes", "attributes", "replacements", "macros", "post_replacements",
];
const HINTS: [&str; 8] = ["c", "a", "r", "m", "q", "v", "n", "p"];
const INLINE: [&str; 7] = ["specialchars", "attributes", "replacements", "macros", "quotes", "verbatim", "normal"];

fn steps(name: &str, inline: bool) -> Vec<S> {
  match name {
    "none" => vec![],
    "normal" | "n" => NORMAL.to_vec(),
    "verbatim" | "v" if inline => vec![Special],
    "verbatim" => vec![Special, Callouts],
    "specialchars" | "c" => vec![Special],
    "callouts" => vec![Callouts],
    "quotes" | "q" => vec![Quotes],
    "attributes" | "a" => vec![Attrs],
    "replacements" | "r" => vec![Repl],
    "macros" | "m" => vec![Macros],
    "post_replacements" | "p" => vec![Post],
    _ => vec![],
  }
}

/// The documented reading: entries in order; one with a modifier changes what is
/// there, at first the default of the block; one without adds to it, at first nothing.
fn resolve(spec: &[(char, &str)], default: &[S]) -> Vec<S> {
  let mut cur: Option<Vec<S>> = None;
  for (m, n) in spec {
    let s = steps(n, false);
    let mut c = cur.unwrap_or_else(|| if *m == ' ' { vec![] } else { default.to_vec() });
    match m {
      '-' => c.retain(|x| !s.contains(x)),
      '<' => {
        let mut v = s;
        v.extend(c);
        c = v;
      }
      _ => c.extend(s),
    }
    cur = Some(c);
  }
  dedup(cur.unwrap_or_default())
}

fn dedup(v: Vec<S>) -> Vec<S> {
  let mut out = vec![];
  for s in v {
    if !out.contains(&s) {
      out.push(s);
    }
  }
  out
}

/// Which steps apply decides the output, not their order, when they come in the
/// usual order; attribute references may come anywhere, values being plain words.
fn usual(v: &[S]) -> bool {
  let o: Vec<usize> = v.iter().filter(|s| **s != Attrs).map(|s| [Special, Quotes, Repl, Macros, Post, Callouts].iter().position(|x| x == s).unwrap()).collect();
  o.windows(2).all(|w| w[0] < w[1])
}

#[derive(Clone, Debug)]
enum F {
  Word(String),
  Tag(String),
  CharRef,
  Amp(String),
  Span(u8, Vec<F>),
  Attr(usize),
  Copy,
  Dash(String, String),
  Dots(String),
  Apos(String, String),
  Link(String, String),
  Url(String),
  Image(String),
  Pass(String),
  PassMacro(String),
  Call,
}

struct Ctx {
  on: Vec<S>,
  vals: Vec<String>,
  names: Vec<String>,
}

impl Ctx {
  fn has(&self, s: S) -> bool {
    self.on.contains(&s)
  }
}

/// how far text may be nested in brackets
#[derive(Clone, Copy, PartialEq)]
enum Where {
  Block,
  Brackets,
}

fn frag(r: &mut Rng, n: &mut usize, depth: usize, at: Where, c: &Ctx) -> F {
  let w = word(r, n);
  let k = r.weighted(&[
    6,
    3,
    2,
    1,
    if depth == 0 { 4 } else { 0 },
    4,
    2,
    2,
    1,
    1,
    if at == Where::Block { 2 } else { 0 },
    2,
    if at == Where::Block { 1 } else { 0 },
    1,
    if at == Where::Block && depth == 0 { 1 } else { 0 },
  ]);
  match k {
    0 => F::Word(w),
    1 => F::Tag(w),
    2 => F::CharRef,
    3 if c.has(Special) => F::Amp(w),
    3 => F::Word(w),
    4 => {
      let q = r.below(7) as u8;
      let m = if (4..6).contains(&q) { 1 } else { r.range(1, 3) };
      let mut k: Vec<F> = (0..m).map(|_| if (4..6).contains(&q) { F::Word(word(r, n)) } else { frag(r, n, 1, at, c) }).collect();
      // the mark would be part of the URL, if it does not close anything
      if matches!(k.last(), Some(F::Url(_))) && !c.has(Quotes) {
        k.push(F::Word(word(r, n)));
      }
      F::Span(q, k)
    }
    5 => F::Attr(r.below(c.vals.len())),
    6 => F::Copy,
    7 => F::Dash(w, word(r, n)),
    8 => F::Dots(w),
    9 => F::Apos(w, word(r, n)),
    10 => F::Link(w, word(r, n)),
    11 => F::Url(w),
    12 => F::Image(w),
    13 => F::Pass(w),
    _ => F::PassMacro(w),
  }
}

const MARKS: [(&str, &str); 7] = [("*", "strong"), ("_", "em"), ("`", "code"), ("#", "mark"), ("^", "sup"), ("~", "sub"), ("**", "strong")];

fn write(f: &F, cx: &Ctx, o: &mut String) {
  match f {
    F::Word(w) => o.push_str(w),
    F::Tag(w) => o.push_str(&format!("<i>{w}</i>")),
    F::CharRef => o.push_str("&#167;"),
    F::Amp(w) => o.push_str(&format!("{w} > {w}")),
    F::Span(q, k) => {
      let m = MARKS[*q as usize].0;
      o.push_str(m);
      for (i, f) in k.iter().enumerate() {
        if i > 0 {
          o.push(' ');
        }
        write(f, cx, o);
      }
      o.push_str(m);
    }
    F::Attr(i) => o.push_str(&format!("{{{}}}", cx.names[*i])),
    F::Copy => o.push_str("(C)"),
    F::Dash(a, b) => o.push_str(&format!("{a}--{b}")),
    F::Dots(w) => o.push_str(&format!("{w}...")),
    F::Apos(a, b) => o.push_str(&format!("{a}'{b}")),
    F::Link(a, b) => o.push_str(&format!("link:{a}.html[{b}]")),
    F::Url(a) => o.push_str(&format!("https://{a}.org")),
    F::Image(a) => o.push_str(&format!("image:{a}.png[]")),
    F::Pass(a) => o.push_str(&format!("+++<u>{a}</u>+++")),
    F::PassMacro(a) => o.push_str(&format!("pass:[<u>{a}</u>]")),
    F::Call => o.push_str("<1>"),
  }
}

fn tag(c: &Ctx, t: &str, w: &str, out: &mut Vec<Node>) {
  if c.has(Special) {
    out.push(txt(format!("<{t}>{w}</{t}>")));
  } else {
    out.push(el(t, &[], vec![txt(w)]));
  }
}

fn expect(f: &F, c: &Ctx, out: &mut Vec<Node>) {
  let (repl, macros) = (c.has(Repl), c.has(Macros));
  match f {
    F::Word(w) => out.push(txt(w.clone())),
    F::Tag(w) => tag(c, "i", w, out),
    F::CharRef if c.has(Special) && !repl => out.push(txt("&#167;")),
    F::CharRef => out.push(txt("§")),
    F::Amp(w) => out.push(txt(format!("{w} > {w}"))),
    F::Span(q, k) => {
      let (m, t) = MARKS[*q as usize];
      let mut v = vec![];
      for (i, f) in k.iter().enumerate() {
        if i > 0 {
          v.push(txt(" "));
        }
        expect(f, c, &mut v);
      }
      if c.has(Quotes) {
        out.push(el(t, &[], v));
      } else {
        out.push(txt(m));
        out.extend(v);
        out.push(txt(m));
      }
    }
    F::Attr(i) if c.has(Attrs) => out.push(txt(c.vals[*i].clone())),
    F::Copy if repl => out.push(txt("©")),
    F::Dash(a, b) if repl => out.push(txt(format!("{a}—\u{200b}{b}"))),
    F::Dots(a) if repl => out.push(txt(format!("{a}…\u{200b}"))),
    F::Apos(a, b) if repl => out.push(txt(format!("{a}’{b}"))),
    F::Link(a, b) if macros => out.push(el("a", &[("href", &format!("{a}.html"))], vec![txt(b.clone())])),
    F::Url(a) if macros => {
      let u = format!("https://{a}.org");
      out.push(el("a", &[("href", &u), ("class", "bare")], vec![txt(u.clone())]))
    }
    F::Image(a) if macros => {
      let img = el("img", &[("src", &format!("{a}.png")), ("alt", a)], vec![]);
      out.push(el("span", &[("class", "image")], vec![img]))
    }
    F::Pass(a) | F::PassMacro(a) if macros => out.push(el("u", &[], vec![txt(a.clone())])),
    F::Pass(a) => {
      out.push(txt("+++"));
      tag(c, "u", a, out);
      out.push(txt("+++"));
    }
    F::PassMacro(a) => {
      out.push(txt("pass:["));
      tag(c, "u", a, out);
      out.push(txt("]"));
    }
    F::Call if c.has(Callouts) => out.push(el("b", &[("class", "conum")], vec![txt("(1)")])),
    f => {
      let mut s = String::new();
      write(f, c, &mut s);
      out.push(txt(s));
    }
  }
}

/// some lines of fragments: source and expectation
/// (`verbatim`: lines that look like comments are text)
fn lines(r: &mut Rng, n: &mut usize, c: &Ctx, verbatim: bool, kinds: &mut Vec<&'static str>) -> (String, Vec<Node>) {
  let count = r.range(1, 4);
  let (mut s, mut v) = (String::new(), vec![]);
  for l in 0..count {
    if l > 0 && r.chance(1, 8) {
      let w = word(r, n);
      s.push_str(&format!("// {w}\n"));
      if verbatim {
        v.push(txt(format!("// {w}\n")));
        kinds.push("line like a comment");
      } else {
        kinds.push("comment");
      }
    }
    // a line starts with a word, so it is never something else
    let w = word(r, n);
    s.push_str(&w);
    v.push(txt(w));
    for _ in 0..r.below(5) {
      let f = frag(r, n, 0, Where::Block, c);
      kinds.push(kind(&f));
      s.push(' ');
      v.push(txt(" "));
      write(&f, c, &mut s);
      expect(&f, c, &mut v);
    }
    if l + 1 < count && r.chance(1, 4) {
      s.push_str(" +");
      kinds.push("post_replacement");
      if c.has(Post) {
        v.push(el("br", &[], vec![]));
      } else {
        v.push(txt(" +"));
      }
    } else if c.has(Special) && r.chance(1, 5) {
      s.push(' ');
      v.push(txt(" "));
      kinds.push("callout");
      write(&F::Call, c, &mut s);
      expect(&F::Call, c, &mut v);
    }
    if l + 1 < count {
      s.push('\n');
      v.push(txt("\n"));
    }
  }
  (s, v)
}

fn kind(f: &F) -> &'static str {
  match f {
    F::Word(_) => "word",
    F::Tag(_) | F::Amp(_) => "special character",
    F::CharRef => "character reference",
    F::Span(..) => "quotes",
    F::Attr(_) => "attribute",
    F::Copy | F::Dash(..) | F::Dots(_) | F::Apos(..) => "replacement",
    F::Link(..) | F::Url(_) | F::Image(_) => "macro",
    F::Pass(_) | F::PassMacro(_) => "passthrough",
    F::Call => "callout",
  }
}

/// a value of the `subs` attribute and the steps it leaves
fn spec(r: &mut Rng, default: &[S]) -> (String, Vec<S>) {
  loop {
    let k = r.range(1, 4);
    let modified = r.chance(1, 2);
    let e: Vec<(char, &str)> = (0..k)
      .map(|_| {
        let m = if modified || r.chance(1, 5) { *r.pick(&['+', '-', '<', '-']) } else { ' ' };
        (m, NAMES[r.below(NAMES.len())])
      })
      .collect();
    let on = resolve(&e, default);
    if !usual(&on) {
      continue;
    }
    // callouts need their angle brackets escaped
    if on.contains(&Callouts) && !on.contains(&Special) {
      continue;
    }
    let sep = if r.chance(1, 4) { ", " } else { "," };
    let text = e
      .iter()
      .map(|(m, n)| match m {
        ' ' => n.to_string(),
        '<' => format!("{n}+"),
        m => format!("{m}{n}"),
      })
      .collect::<Vec<_>>()
      .join(sep);
    return (text, on);
  }
}

fn list(r: &mut Rng, spec: &str) -> String {
  match r.below(3) {
    0 if !spec.contains(',') => format!("subs={spec}"),
    1 => format!("subs='{spec}'"),
    _ => format!("subs=\"{spec}\""),
  }
}

impl Prop for Subs {
  fn id(&self) -> &'static str {
    "C26"
  }
  fn rule(&self) -> &'static str {
    "paragraphs, verbatim and pass blocks with generated values of subs, and pass macros with generated steps, over text that is sensitive to every step, DOM compared with the one the resolved steps prescribe"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 250_000,
      Tier::Thorough => 2_000_000,
    }
  }
  fn assumptions(&self) -> Vec<String> {
    vec!["steps are generated in the usual order, where only which of them apply matters; attribute values are plain words".into()]
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut n = 0;
    let mut kinds = vec![];
    let vals: Vec<String> = (0..2).map(|_| word(&mut r, &mut n)).collect();
    let names: Vec<String> = (0..2).map(|i| format!("name{i}")).collect();
    let mut src = String::new();
    for (k, v) in names.iter().zip(&vals) {
      src.push_str(&format!(":{k}: {v}\n"));
    }
    let mut c = Ctx { on: vec![], vals, names };
    let mut exp = vec![];
    for _ in 0..r.range(1, 4) {
      src.push('\n');
      let b = r.below(10);
      let default: Vec<S> = match b {
        0..=2 | 9 => NORMAL.to_vec(),
        3..=6 => vec![Special, Callouts],
        _ => vec![],
      };
      if b <= 8 {
        let (text, on) = if r.chance(1, 6) { (String::new(), default.clone()) } else { spec(&mut r, &default) };
        c.on = on;
        let (s, v) = lines(&mut r, &mut n, &c, (2..=7).contains(&b), &mut kinds);
        let a = if text.is_empty() { String::new() } else { list(&mut r, &text) };
        let with = |style: &str| match (style, a.as_str()) {
          ("", "") => String::new(),
          (s, "") => format!("[{s}]\n"),
          ("", a) => format!("[{a}]\n"),
          (s, a) => format!("[{s},{a}]\n"),
        };
        let pre = |class: &str, v: Vec<Node>| div(class, vec![div("content", vec![el("pre", &[], v)])]);
        match b {
          0 | 1 if r.chance(1, 5) => {
            // blocks in a block have their own
            src.push_str(&format!("[subs={}]\n====\n{}{s}\n====\n", NAMES[r.below(NAMES.len())], with("")));
            let p = div("paragraph", vec![el("p", &[], v)]);
            exp.push(div("exampleblock", vec![div("content", vec![p])]));
          }
          0 | 1 => {
            src.push_str(&format!("{}{s}\n", with("")));
            exp.push(div("paragraph", vec![el("p", &[], v)]));
          }
          2 => {
            src.push_str(&format!("{}____\n{s}\n____\n", with("verse")));
            exp.push(div("verseblock", vec![el("pre", &[("class", "content")], v)]));
          }
          3 => {
            src.push_str(&format!("{}----\n{s}\n----\n", with("")));
            exp.push(pre("listingblock", v));
          }
          4 => {
            src.push_str(&format!("{}....\n{s}\n....\n", with("")));
            exp.push(pre("literalblock", v));
          }
          5 => {
            src.push_str(&format!("{}{s}\n", with("listing")));
            exp.push(pre("listingblock", v));
          }
          6 => {
            src.push_str(&format!("{}{s}\n", with("literal")));
            exp.push(pre("literalblock", v));
          }
          7 => {
            src.push_str(&format!("{}++++\n{s}\n++++\n", with("")));
            exp.extend(v);

          }
          _ => {
            src.push_str(&format!("{}{s}\n", with("pass")));
            exp.extend(v);

          }
        }
        cx.count(["paragraph", "paragraph", "verse", "listing", "literal", "listing paragraph", "literal paragraph", "pass", "pass paragraph"][b]);
        cx.count(if text.is_empty() { "no subs" } else if text.contains(['+', '-']) { "modified subs" } else { "listed subs" });
      } else {
        // a pass macro among text
        let hints: Vec<&str> = (0..r.range(1, 4)).map(|_| if r.chance(1, 3) { *r.pick(&INLINE) } else { *r.pick(&HINTS) }).collect();
        let on = dedup(hints.iter().flat_map(|h| steps(h, true)).collect());
        if !usual(&on) {
          continue;
        }
        let (w, e) = (word(&mut r, &mut n), word(&mut r, &mut n));
        let mut s = format!("{w} *{w}* pass:{}[", hints.join(","));
        let mut v = vec![txt(format!("{w} ")), el("strong", &[], vec![txt(w.clone())]), txt(" ")];
        c.on = on;
        for i in 0..r.range(1, 4) {
          let f = frag(&mut r, &mut n, 0, Where::Brackets, &c);
          kinds.push(kind(&f));
          if i > 0 {
            s.push(' ');
            v.push(txt(" "));
          }
          write(&f, &c, &mut s);
          expect(&f, &c, &mut v);
        }
        s.push_str(&format!("] _{e}_"));
        v.push(txt(" "));
        v.push(el("em", &[], vec![txt(e)]));
        src.push_str(&format!("{s}\n"));
        exp.push(div("paragraph", vec![el("p", &[], v)]));
        cx.count("pass macro");
      }
    }
    for k in kinds {
      cx.count(k);
    }
    cx.nontrivial(&src);
    let job = Job::new(src);
    let exp = crate::model::canon(&exp);
    compare_with(cx, &job, &exp, |d| d.iter().find(|w| !w.message.contains("allout")).map(|w| (format!("diagnostic: {}", w.message), format!("{w:?}"))));
    cx.sample(|| json!(job.src));
  }
}
