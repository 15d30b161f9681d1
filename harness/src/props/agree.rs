//! C28: both HTML backends show the same document.

use serde_json::json;

use crate::conv::{self, Be, Job, Run};
use crate::html::{self, El, Node};
use crate::orch::*;
use crate::props::preproc::any_doc;
use crate::props::{attrs, captions, sections};
use crate::wild;

pub struct Agree;

/// what a reader gets, in order: text (blanks aside), links, images, ids, formatting
fn project(nodes: &[Node], be: Be, out: &mut Vec<String>) {
  for n in nodes {
    match n {
      Node::Text(t) => {
        // dashes are set differently
        let t: String = t.chars().filter(|c| !c.is_whitespace() && *c != '\u{200b}').map(|c| if c == '\u{2014}' { '\u{2013}' } else { c }).collect();
        if !t.is_empty() {
          match out.last_mut() {
            Some(l) if !l.starts_with('\u{1}') => l.push_str(&t),
            _ => out.push(t),
          }
          // three dashes are a replacement in one backend
          if let Some(l) = out.last_mut()
            && !l.starts_with('\u{1}')
            && (l.contains("--") || l.contains('\u{2013}'))
          {
            let mut dash = false;
            l.retain(|c| {
              let d = matches!(c, '-' | '\u{2013}');
              !std::mem::replace(&mut dash, d) || !d
            });
            *l = l.replace('\u{2013}', "-");
          }
        }
      }
      Node::El(e) => element(e, be, out),
      _ => {}
    }
  }
}

fn element(e: &El, be: Be, out: &mut Vec<String>) {
  let fnote = |s: Option<&str>| s.is_some_and(|s| s.contains("_footnoteref_") || s.contains("_footnotedef_") || s.contains("_footnote_"));
  match e.tag.as_str() {
    // marks of footnotes, and the way back from their texts
    "a" if fnote(e.attr("href")) => return,
    "sup" if e.classes().iter().any(|c| c.starts_with("footnote")) => return,
    "div" if e.has_class("footnote") => {
      let mut kids = e.kids.clone();
      if let Some(Node::Text(t)) = kids.get_mut(1) {
        *t = t.strip_prefix(". ").unwrap_or(t).to_string();
      }
      return project(&kids, be, out);
    }
    "span" if e.has_class("title-label") => {
      let t = e.text().trim().trim_end_matches(':').to_string();
      return project(&[Node::Text(t)], be, out);
    }
    "div" if be == Be::Dr && (e.has_class("videoblock") || e.has_class("audioblock")) => {
      let (title, rest): (Vec<Node>, Vec<Node>) = e.kids.iter().cloned().partition(|k| matches!(k, Node::El(k) if k.has_class("title")));
      project(&rest, be, out);
      return project(&title, be, out);
    }
    "div" if e.has_class("qlist") => {
      // questions are set in em by this backend alone
      let mut e = e.clone();
      unmark(&mut e.kids);
      return project(&e.kids, be, out);
    }
    "input" => {
      let t = if e.attr("checked").is_some() { "\u{2713}" } else { "\u{274f}" };
      return project(&[Node::Text(t.into())], be, out);
    }
    "div" if e.has_class("attribution") => {
      let mut e = e.clone();
      for k in e.kids.iter_mut() {
        if matches!(k, Node::El(e) if e.tag == "br") {
          *k = Node::Text(",".into());
        }
      }
      return project(&e.kids, be, out);
    }
    "summary" if e.text().trim() == "Details" => return,
    "b" | "i" if e.has_class("conum") => {
      out.push(format!("\u{1}conum {}", e.text().trim_matches(['(', ')'])));
      return;
    }
    "video" | "audio" => {
      out.push(format!("\u{1}media {}", e.attr("src").unwrap_or("")));
      return;
    }
    "td" if e.has_class("icon") && be == Be::Dr => {
      // icons of admonitions are pictures in one backend
      let mut alt = None;
      html::walk(&e.kids, &mut |i| alt = alt.take().or(i.attr("alt").filter(|_| i.tag == "img").map(str::to_string)));
      if let Some(alt) = alt {
        return project(&[Node::Text(alt)], be, out);
      }
    }
    "a" => {
      // links of images to themselves, or to nothing, by name
      if matches!(e.attr("href"), Some("self" | "none")) && e.has_class("image") && be == Be::Dr {
        if e.attr("href") == Some("self") {
          html::walk(&e.kids, &mut |i| out.extend(i.attr("src").map(|s| format!("\u{1}->{s}"))));
        }
      } else if let Some(h) = e.attr("href") {
        out.push(format!("\u{1}->{h}"));
      }
    }
    "img" => out.push(format!("\u{1}img {} {}", e.attr("src").unwrap_or(""), e.attr("alt").unwrap_or(""))),
    "strong" | "em" | "code" | "mark" | "sub" | "sup" => out.push(format!("\u{1}<{}", e.tag)),
    // terms of horizontal lists
    "td" if e.has_class("hdlist1") => {
      let mut kids = e.kids.clone();
      kids.retain(|k| !matches!(k, Node::El(k) if k.tag == "br"));
      return project(&kids, be, out);
    }
    "br" => out.push("\u{1}br".into()),
    "pre" if !has_conum(e) => out.push(format!("\u{1}pre {:?}", e.text().replace("\u{203a} ", "\u{203a}").replace('\u{2014}', "\u{2013}").replace('\u{200b}', ""))),
    _ => {}
  }
  let part = structure(e, be);
  if let Some(p) = &part {
    out.push(format!("\u{1}{p}"));
  }
  project(&e.kids, be, out);
  if let Some(p) = &part {
    out.push(format!("\u{1}end of {}", p.split(' ').next().unwrap()));
  }
}

fn has_conum(e: &El) -> bool {
  let mut any = false;
  html::walk(&e.kids, &mut |i| any |= i.has_class("conum"));
  any
}

/// sections, headings, lists and tables, with what they show
fn structure(e: &El, be: Be) -> Option<String> {
  let level = |n: &str| n.parse::<u8>().ok().filter(|n| (1..=6).contains(n));
  Some(match e.tag.as_str() {
    "div" if be == Be::Dr => {
      let n = e.classes().iter().find_map(|c| c.strip_prefix("sect").and_then(level))?;
      format!("section {n}")
    }
    "section" if e.has_class("doc-section") => format!("section {}", e.classes().iter().find_map(|c| c.strip_prefix("level-").and_then(level))?),
    "h1" | "h2" | "h3" | "h4" | "h5" | "h6" if !e.has_class("block-title") && !e.id().is_some_and(|i| i.ends_with("title")) => e.tag.clone(),
    "ol" if ["reversed", "start", "type"].iter().any(|a| e.attr(a).is_some()) => {
      format!("ol {:?} {:?} {:?}", e.attr("type"), e.attr("start"), e.attr("reversed"))
    }
    "td" | "th" if e.has_class("tableblock") || e.classes().iter().any(|c| c.starts_with("halign")) => {
      let align: Vec<&str> = e.classes().iter().copied().filter(|c| c.contains("align")).collect();
      format!("{} {:?} {:?} {}", e.tag, e.attr("colspan"), e.attr("rowspan"), align.join(" "))
    }
    _ => return None,
  })
}

fn unmark(nodes: &mut [Node]) {
  for n in nodes {
    let Node::El(ol) = n else { continue };
    for li in ol.kids.iter_mut() {
      let Node::El(li) = li else { continue };
      for p in li.kids.iter_mut() {
        if let Node::El(p) = p
          && p.tag == "p"
          && let [Node::El(em)] = &mut p.kids[..]
          && em.tag == "em"
        {
          em.tag = "span".into();
        }
      }
    }
  }
}

/// titled blocks carry their id on different elements, so these are compared without their order
fn ids(nodes: &[Node]) -> (Vec<String>, Vec<String>) {
  let (mut v, mut folded) = (vec![], vec![]);
  html::walk(nodes, &mut |e| {
    // the text of a description is not a block of its own in one backend
    if e.tag == "dd"
      && let Some(Node::El(p)) = e.kids.first()
      && p.tag == "p"
    {
      folded.extend(p.id().map(str::to_string));
    }
    v.extend(e.id().filter(|i| !i.starts_with("_footnote") && *i != "footnotes").filter(|i| !i.ends_with("title")).map(|i| i.to_string()))
  });
  v.sort();
  (v, folded)
}

impl Prop for Agree {
  fn id(&self) -> &'static str {
    "C28"
  }
  fn rule(&self) -> &'static str {
    "both backends: same text, links, images, ids, formatting, sections, headings, numbering, cells and verbatim text in the same order"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 120_000,
      Tier::Thorough => 3_000_000,
    }
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let (what, mut job) = match r.below(8) {
      0 => ("outline", sections::make(cx).0),
      1 => ("captions", captions::make(cx).0),
      2 => ("attributes", attrs::make(cx).0),
      3 | 4 => {
        let s = wild::wild(&mut r);
        // what one backend alone knows: quotes by language, links of images by default
        if [":lang", "html5s"].iter().any(|w| s.contains(w)) {
          return;
        }
        ("wild", Job::new(s))
      }
      _ => match any_doc(&mut r, 2) {
        Some((_, s)) => ("blocks and inlines", Job::new(s)),
        None => return,
      },
    };
    cx.count(what);
    if r.chance(1, 12) {
      job = job.attr("hardbreaks-option", true);
    }
    job.strict = false;
    cx.nontrivial(&job.src);
    cx.eval();
    let (Run::Done(a), Run::Done(b)) = (conv::run(&job), conv::run(&job.clone().be(Be::H5))) else { return };
    let (Some(a), Some(b)) = (a.html, b.html) else { return };
    let (Ok(a), Ok(b)) = (html::parse(&a), html::parse(&b)) else { return };
    let (mut pa, mut pb) = (vec![], vec![]);
    project(&a, Be::Dr, &mut pa);
    project(&b, Be::H5, &mut pb);
    cx.add("facts compared", pa.len() as u64);
    let ((ia, _), (mut ib, folded)) = (ids(&a), ids(&b));
    for f in folded {
      let n = |v: &[String]| v.iter().filter(|i| **i == f).count();
      if n(&ib) > n(&ia) {
        ib.remove(ib.iter().position(|i| *i == f).unwrap());
      }
    }
    if ia != ib {
      let d = |x: &[String], y: &[String]| x.iter().find(|i| !y.contains(i)).cloned().unwrap_or_default();
      cx.fail("backends differ in ids", format!("dr {} / h5 {}", d(&ia, &ib), d(&ib, &ia)), job.describe());
    }
    if let Some(i) = (0..pa.len().max(pb.len())).find(|i| pa.get(*i) != pb.get(*i)) {
      let w = |v: &[String]| v[i.min(v.len())..(i + 3).min(v.len())].join(" ");
      let sig = |v: &[String]| v.get(i).map(|s| if s.starts_with('\u{1}') { s.chars().skip(1).take(2).collect() } else { "text".to_string() }).unwrap_or("end".into());
      cx.fail(format!("backends differ: {} / {}", sig(&pa), sig(&pb)), format!("dr {}\n h5 {}", w(&pa), w(&pb)), job.describe());
    }
    cx.sample(|| json!(job.src));
  }
}
