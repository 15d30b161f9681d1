//! Properties decided by the reference converter of `model`: a generated
//! document is converted by the real code and its DOM compared with the DOM the
//! model prescribes.

use std::collections::BTreeMap;

use serde_json::json;

use crate::conv::{self, Job, Run};
use crate::gen_::*;
use crate::html;
use crate::model::*;
use crate::orch::*;
use crate::rng::Rng;

/// Converts and compares; reports the first difference.
pub fn compare(cx: &mut Cx, job: &Job, exp: &[html::Node]) -> bool {
  compare_with(cx, job, exp, |d| d.first().map(|w| (format!("diagnostic: {}", w.message), format!("valid document got diagnostic {w:?}"))))
}

/// `judge` says what is wrong with the diagnostics, if anything
pub fn compare_with(cx: &mut Cx, job: &Job, exp: &[html::Node], judge: impl FnOnce(&[conv::Diag]) -> Option<(String, String)>) -> bool {
  cx.eval();
  match conv::run(job) {
    Run::Panic { msg, loc } => {
      cx.fail(format!("panic {loc}"), format!("{loc}: {msg}"), job.describe());
      false
    }
    Run::Done(d) => {
      let Some(h) = d.html else {
        cx.fail("rejected", format!("valid document rejected: {:?}", d.diags.first()), job.describe());
        return false;
      };
      if let Some((sig, msg)) = judge(&d.diags) {
        cx.fail(sig, msg, job.describe());
        return false;
      }
      match html::parse(&h) {
        Err(e) => {
          cx.fail("malformed html", format!("{e}\n{h}"), job.describe());
          false
        }
        Ok(n) => match diff(exp, &canon(&n)) {
          None => true,
          Some((path, what)) => {
            let tail: String = path.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
            cx.fail(format!("dom differs at {tail}"), format!("at {path}\n {what}"), job.describe());
            false
          }
        },
      }
    }
  }
}

pub fn count_kinds(cx: &mut Cx, k: &BTreeMap<&'static str, u64>) {
  for (k, n) in k {
    cx.add(k, *n);
  }
}

pub struct Modelled {
  pub id: &'static str,
  pub rule: &'static str,
  pub cfg: fn(&mut Rng) -> Cfg,
  pub quick: u64,
  pub thorough: u64,
}

fn only(mut c: Cfg, toks: &[(usize, usize)], blks: &[(usize, usize)]) -> Cfg {
  c.tok = [0; 22];
  c.blk = [0; 24];
  for (k, w) in toks {
    c.tok[*k] = *w;
  }
  for (k, w) in blks {
    c.blk[*k] = *w;
  }
  c
}

/// every block that holds inline text
const TEXTUAL: &[(usize, usize)] = &[
  (B_PARA, 6), (B_EXAMPLE, 1), (B_SIDEBAR, 1), (B_QUOTE, 1), (B_OPEN, 1), (B_ADMPARA, 1), (B_ADMBLOCK, 1),
  (B_VERSE, 1), (B_ULIST, 2), (B_OLIST, 2), (B_DLIST, 2), (B_TABLE, 2), (B_DISCRETE, 1), (B_QUOTED, 1), (B_BIBLIO, 1),
];
const PARAS: &[(usize, usize)] = &[(B_PARA, 1)];

/// inline tokens alone in paragraphs, or in every place that takes text
fn inline_profile(r: &mut Rng, toks: &[(usize, usize)]) -> Cfg {
  let mut c = Cfg::all();
  c.meta = 0;
  if r.chance(1, 2) {
    c.max_blocks = 3;
    only(c, toks, PARAS)
  } else {
    c.meta = 1;
    only(c, toks, TEXTUAL)
  }
}

/// block kinds with light inline content
fn block_profile(r: &mut Rng, blks: &[(usize, usize)], meta: usize) -> Cfg {
  let mut c = Cfg::all();
  c.meta = meta;
  c.max_depth = r.range(1, 4);
  c.max_blocks = 4;
  let c = only(c, &[(T_WORD, 30), (T_FMT, 2), (T_SPECIAL, 2), (T_BR, 1), (T_LITMONO, 1)], blks);
  c
}

pub static INLINE_FMT: Modelled = Modelled {
  id: "C02",
  rule: "generated documents of nested/adjacent constrained, unconstrained and roled formatting in every text position, DOM compared with the reference converter",
  cfg: |r| inline_profile(r, &[(T_WORD, 20), (T_FMT, 10), (T_UNC, 4), (T_ROLE, 3), (T_LITMONO, 1), (T_QUOTE, 1), (T_BR, 1)]),
  quick: 40_000,
  thorough: 1_500_000,
};
pub static SYMBOLS: Modelled = Modelled {
  id: "C03",
  rule: "generated documents of special characters, typographic replacements, curly quotes, escapes and literal text in every text position, DOM compared with the reference converter",
  cfg: |r| inline_profile(r, &[(T_WORD, 20), (T_SYM, 6), (T_ESC, 4), (T_SPECIAL, 8), (T_QUOTE, 3), (T_LITMONO, 3), (T_PASSTXT, 3), (T_RAW, 2), (T_FMT, 2)]),
  quick: 40_000,
  thorough: 1_500_000,
};
pub static LINKS: Modelled = Modelled {
  id: "C04",
  rule: "generated documents of bare URLs, URL and link macros, e-mail addresses and mailto macros in every text position, DOM compared with the reference converter",
  cfg: |r| inline_profile(r, &[(T_WORD, 20), (T_URL, 6), (T_LINK, 5), (T_MAIL, 4), (T_FMT, 2), (T_SPECIAL, 1)]),
  quick: 40_000,
  thorough: 1_500_000,
};
pub static XREFS: Modelled = Modelled {
  id: "C05",
  rule: "generated documents of cross references (both forms, with and without text, forward and backward) to sections, blocks and inline anchors, DOM compared with the reference converter",
  cfg: |r| {
    let mut c = inline_profile(r, &[(T_WORD, 20), (T_XREF, 8), (T_ANCHOR, 4), (T_FMT, 1)]);
    c.meta = 6;
    c
  },
  quick: 40_000,
  thorough: 1_500_000,
};
pub static FOOTNOTES: Modelled = Modelled {
  id: "C06",
  rule: "generated documents of plain, named and repeated footnotes in every text position, DOM (numbers, links, list) compared with the reference converter",
  cfg: |r| {
    let mut c = inline_profile(r, &[(T_WORD, 16), (T_FOOT, 8), (T_FMT, 2), (T_SPECIAL, 1)]);
    c.max_blocks = 5;
    c
  },
  quick: 40_000,
  thorough: 1_500_000,
};
pub static MACROS: Modelled = Modelled {
  id: "C07",
  rule: "generated documents of image, keyboard, button, menu, index term and passthrough macros plus block images, DOM compared with the reference converter",
  cfg: |r| {
    let mut c = inline_profile(r, &[(T_WORD, 16), (T_IMG, 5), (T_UI, 6), (T_IDX, 4), (T_RAW, 2), (T_PASSTXT, 2), (T_BR, 2)]);
    c.blk[B_IMAGE] = 3;
    c
  },
  quick: 40_000,
  thorough: 1_500_000,
};
pub static META: Modelled = Modelled {
  id: "C09",
  rule: "generated documents where every kind of block carries ids, roles, reference text and titles in all spellings, DOM compared with the reference converter",
  cfg: |r| {
    let mut c = Cfg::all();
    c.meta = 9;
    c.max_depth = r.range(1, 3);
    let b = c.blk;
    c = only(c, &[(T_WORD, 30), (T_FMT, 2), (T_XREF, 1)], &[]);
    c.blk = b;
    c.blk[B_HIDDEN] = 0;
    c
  },
  quick: 30_000,
  thorough: 1_000_000,
};
pub static VERBATIM: Modelled = Modelled {
  id: "C10",
  rule: "generated documents of listing, literal, passthrough, verse and callout blocks in every spelling, alone and inside containers, lists and tables, DOM (every character) compared with the reference converter",
  cfg: |r| {
    let mut b = vec![(B_PARA, 2), (B_LITPARA, 3), (B_LISTING, 6), (B_LITERAL, 4), (B_RAW, 2), (B_CALLOUT, 4), (B_VERSE, 2)];
    if r.chance(1, 2) {
      b.extend([(B_EXAMPLE, 1), (B_SIDEBAR, 1), (B_QUOTE, 1), (B_OPEN, 1), (B_ULIST, 2), (B_OLIST, 1), (B_DLIST, 1), (B_ADMBLOCK, 1), (B_TABLE, 2)]);
    }
    block_profile(r, &b, 2)
  },
  quick: 40_000,
  thorough: 1_500_000,
};
pub static CONTAINERS: Modelled = Modelled {
  id: "C11",
  rule: "generated documents of nested example, sidebar, quote, open, collapsible and admonition blocks around other blocks, DOM compared with the reference converter",
  cfg: |r| {
    let mut b = vec![
      (B_PARA, 4), (B_EXAMPLE, 3), (B_SIDEBAR, 3), (B_QUOTE, 3), (B_OPEN, 3), (B_ADMPARA, 1), (B_ADMBLOCK, 3), (B_BREAK, 1), (B_DISCRETE, 1), (B_IMAGE, 1), (B_QUOTED, 2),
    ];
    if r.chance(1, 2) {
      b.extend([(B_LISTING, 1), (B_LITERAL, 1), (B_ULIST, 1), (B_OLIST, 1), (B_DLIST, 1), (B_VERSE, 1), (B_HIDDEN, 1), (B_PAGE, 1), (B_RAW, 1), (B_TABLE, 1)]);
    }
    block_profile(r, &b, 2)
  },
  quick: 40_000,
  thorough: 1_500_000,
};
pub static LISTS: Modelled = Modelled {
  id: "C12",
  rule: "generated documents of nested unordered, ordered, check and description lists with attached blocks, DOM compared with the reference converter",
  cfg: |r| {
    let mut b = vec![(B_PARA, 1), (B_ULIST, 5), (B_OLIST, 5), (B_DLIST, 4)];
    if r.chance(1, 2) {
      b.extend([(B_LISTING, 1), (B_LITERAL, 1), (B_EXAMPLE, 1), (B_OPEN, 1), (B_ADMPARA, 1), (B_IMAGE, 1), (B_SIDEBAR, 1), (B_QUOTE, 1)]);
    }
    block_profile(r, &b, 1)
  },
  quick: 40_000,
  thorough: 1_500_000,
};
pub static TABLES: Modelled = Modelled {
  id: "C13",
  rule: "generated documents of tables with column specs, cell specs, spans, styles, header/footer rows and nested AsciiDoc cells, DOM compared with the reference converter",
  cfg: |r| {
    let mut b = vec![(B_PARA, 1), (B_TABLE, 6)];
    if r.chance(1, 2) {
      b.extend([(B_ULIST, 1), (B_OLIST, 1), (B_DLIST, 1), (B_EXAMPLE, 1), (B_ADMPARA, 1)]);
    }
    let mut c = block_profile(r, &b, 2);
    c.tok[T_URL] = 1;
    c.tok[T_FOOT] = 1;
    c.max_depth = r.range(1, 2);
    c
  },
  quick: 40_000,
  thorough: 1_500_000,
};
pub static WHOLE: Modelled = Modelled {
  id: "C14",
  rule: "generated whole documents mixing every modelled construct, DOM compared with the reference converter",
  cfg: |r| {
    let mut c = Cfg::all();
    c.max_depth = r.range(1, 4);
    c
  },
  quick: 30_000,
  thorough: 1_000_000,
};

impl Prop for Modelled {
  fn id(&self) -> &'static str {
    self.id
  }
  fn rule(&self) -> &'static str {
    self.rule
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => self.quick,
      Tier::Thorough => self.thorough,
    }
  }
  fn assumptions(&self) -> Vec<String> {
    vec![
      "the reference converter (harness/src/model.rs) states what Asciidoctor-compatible HTML is for the modelled constructs".into(),
      "markup is generated away from spellings whose reading is ambiguous".into(),
    ]
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let cfg = (self.cfg)(&mut r);
    let strict = r.chance(1, 3);
    let mut g = Gen::new(&mut r, cfg);
    let d = g.doc();
    let kinds = std::mem::take(&mut g.kinds);
    let refs = std::mem::take(&mut g.refs);
    let exp = expect(&d, &refs);
    let src = src_doc(&d);
    if !footnotes_ordered(&src) {
      cx.add("skipped", 1);
      return;
    }
    cx.nontrivial(&src);
    let mut job = Job::new(src);
    job.strict = strict;
    count_kinds(cx, &kinds);
    compare(cx, &job, &exp);
    cx.sample(|| json!(job.src));
  }
}
