use std::collections::BTreeMap;

use asciidork_core::{DocType, SafeMode};
use serde_json::json;

use crate::conv::*;
use crate::orch::*;
use crate::rng::Rng;
use crate::wild;

pub struct Totality;

/// every attribute the code looks at
const ATTRS: &[&str] = &[
  "icons", "toc", "toc-title", "toc-class", "toclevels", "sectnums", "sectnumlevels", "sectids", "sectanchors", "sectlinks", "idprefix", "idseparator",
  "experimental", "hardbreaks-option", "source-highlighter", "source-language", "compat-mode", "partnums", "chapter-signifier", "part-signifier",
  "appendix-caption", "table-caption", "figure-caption", "example-caption", "listing-caption", "note-caption", "tip-caption", "caption", "showtitle",
  "notitle", "title", "author", "authors", "email", "firstname", "revnumber", "revdate", "revremark", "version-label", "description", "keywords",
  "copyright", "favicon", "app-name", "lang", "nolang", "encoding", "noheader", "nofooter", "reproducible", "stylesheet", "webfonts", "max-width",
  "imagesdir", "iconsdir", "icontype", "data-uri", "allow-uri-read", "hide-uri-scheme", "relfileprefix", "relfilesuffix", "outfilesuffix",
  "attribute-missing", "leveloffset", "docinfo", "docinfo1", "docinfosubs", "docname", "doctitle", "doctype", "css-signature", "max-include-depth",
  "linkcss", "stylesdir", "copycss", "last-update-label", "docdate", "docdatetime", "localdate", "nofootnotes", "html5s-image-default-link", "foo", "bar",
];
const VALUES: &[&str] = &[
  "", "0", "1", "-1", "5", "300", "99999999999999999999", "preamble", "macro", "left", "right", "auto", "all", "font", "image", "skip", "drop", "warn",
  "shared", "private", "shared-head", "book", "article", "inline", "manpage", "tabs", "é", "<b>", "\"", "{foo}", "a b", "/", "../x", "http://x.y", "none", "svg", "+1",
];

pub fn random_job(r: &mut Rng) -> Job {
  let mut job = Job::new(wild::wild(r));
  job.strict = r.chance(1, 3);
  job.embedded = r.chance(2, 3);
  job.be = if r.chance(1, 2) { Be::Dr } else { Be::H5 };
  job.doctype = match r.below(8) {
    0 => Some(DocType::Book),
    1 => Some(DocType::Inline),
    2 => Some(DocType::Manpage),
    3 => Some(DocType::Article),
    _ => None,
  };
  job.safe = *r.pick(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  if r.chance(1, 2) {
    job.at = match r.below(3) {
      0 => Src::Path("/docs/main.adoc".into()),
      1 => Src::Stdin("/docs".into()),
      _ => Src::Tmp,
    };
    if job.at != Src::Tmp {
      let mut f = BTreeMap::new();
      for n in ["a.adoc", "b.adoc", "c.adoc", "x.adoc"] {
        if r.chance(3, 4) {
          // at most one include per file: the work of more grows with the power of the depth
          let w = wild::wild(r);
          let w = match w.find("include::") {
            Some(i) => format!("{}{}", &w[..i + 9], w[i + 9..].replace("include::", "inc::")),
            None => w,
          };
          f.insert(format!("/docs/{n}"), garble(r, w));
        }
      }
      job.files = Some(f);
      job.base_dir = Some("/docs".into());
    }
  }
  if r.chance(2, 3) {
    for _ in 0..r.range(1, 6) {
      let k = r.pick_s(ATTRS);
      let v: asciidork_core::AttrValue = match r.below(6) {
        0 | 1 | 2 => true.into(),
        3 => false.into(),
        _ => r.pick_s(VALUES).into(),
      };
      job = if r.chance(1, 2) { job.attr(k, v) } else { job.soft_attr(k, v) };
    }
  }
  job
}

/// the bytes of a file: at times in another encoding, or broken
fn garble(r: &mut Rng, text: String) -> Vec<u8> {
  let mut bytes = text.into_bytes();
  if !r.chance(1, 6) {
    return bytes;
  }
  if r.chance(1, 2) {
    let utf16 = String::from_utf8(bytes).unwrap();
    let be = r.chance(1, 2);
    bytes = utf16.encode_utf16().flat_map(|u| if be { u.to_be_bytes() } else { u.to_le_bytes() }).collect();
  }
  for _ in 0..r.below(3) {
    let at = r.below(bytes.len() + 1);
    match r.below(3) {
      0 => bytes.insert(at, *r.pick(&[0xFF, 0xC3, 0x80, 0xD8, 0x00])),
      1 => bytes.truncate(at),
      _ => {
        if at < bytes.len() {
          bytes[at] = r.below(256) as u8;
        }
      }
    }
  }
  let mut mark: Vec<u8> = match r.below(4) {
    0 => vec![0xEF, 0xBB, 0xBF],
    1 => vec![0xFF, 0xFE],
    2 => vec![0xFE, 0xFF],
    _ => vec![],
  };
  mark.extend(bytes);
  mark
}

impl Prop for Totality {
  fn id(&self) -> &'static str {
    "C01"
  }
  fn rule(&self) -> &'static str {
    "wild documents"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 800_000,
      Tier::Thorough => 5_000_000,
    }
  }
  fn crash_is_violation(&self) -> bool {
    true
  }
  fn run(&self, cx: &mut Cx) {
    let job = random_job(&mut cx.rng);
    cx.eval();
    cx.nontrivial(&job.src);
    match run(&job) {
      Run::Panic { msg, loc } => cx.fail(format!("panic {loc}"), format!("{loc}: {msg}"), job.describe()),
      Run::Done(d) => {
        cx.count(if d.html.is_some() { "converted" } else { "rejected" });
        cx.sample(|| json!(job.src));
      }
    }
  }
}
