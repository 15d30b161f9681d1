//! C30: partial includes select the lines they ask for.

use std::collections::{BTreeMap, BTreeSet};

use serde_json::json;

use crate::conv::{self, Run};
use crate::html;
use crate::model::word;
use crate::orch::*;
use crate::props::preproc::file_job;
use crate::rng::Rng;

pub struct Select;

/// a line of the file: text, or the start or end of a tagged region
#[derive(Clone, Debug)]
enum L {
  Text(String),
  Start(String),
  End(String),
}

/// The documented reading of tag selections (the last word on a tag counts; the
/// wild cards `*` and `**` say what happens to tags, and lines, not named).
fn tagged(lines: &[L], sel: &[(String, bool)]) -> (Vec<String>, BTreeSet<String>) {
  let mut tags: Vec<(String, bool)> = vec![];
  for (k, v) in sel {
    match tags.iter_mut().find(|t| t.0 == *k) {
      Some(t) => t.1 = *v,
      None => tags.push((k.clone(), *v)),
    }
  }
  let take = |tags: &mut Vec<(String, bool)>, k: &str| tags.iter().position(|t| t.0 == k).map(|i| tags.remove(i).1);
  let mut wildcard = None;
  let base;
  if let Some(all) = take(&mut tags, "**") {
    base = all;
    if let Some(w) = take(&mut tags, "*") {
      wildcard = Some(w);
    } else if !all && tags.first().is_some_and(|t| !t.1) {
      wildcard = Some(true);
    }
  } else if tags.iter().any(|t| t.0 == "*") {
    let first = tags[0].0 == "*";
    wildcard = take(&mut tags, "*");
    base = first && wildcard == Some(false);
  } else {
    base = !tags.iter().any(|t| t.1);
  }
  let mut missing: BTreeSet<String> = tags.iter().filter(|t| t.1).map(|t| t.0.clone()).collect();
  let mut stack: Vec<(String, bool)> = vec![];
  let mut on = base;
  let mut out = vec![];
  for l in lines {
    match l {
      L::Text(t) if on => out.push(t.clone()),
      L::Text(_) => {}
      L::Start(t) => {
        missing.remove(t);
        if let Some((_, v)) = tags.iter().find(|x| x.0 == *t) {
          on = *v;
          stack.push((t.clone(), on));
        } else if let Some(w) = wildcard {
          on = if !stack.is_empty() && !on { false } else { w };
          stack.push((t.clone(), on));
        }
      }
      L::End(t) => {
        if stack.last().is_some_and(|s| s.0 == *t) {
          stack.pop();
          on = stack.last().map_or(base, |s| s.1);
        }
      }
    }
  }
  (out, missing)
}

fn ranges(total: usize, specs: &[String]) -> Vec<usize> {
  let mut on = BTreeSet::new();
  for s in specs {
    if let Some((a, b)) = s.split_once("..") {
      let a: usize = a.parse().unwrap();
      let b = b.parse::<i64>().ok().filter(|b| *b >= 0).map_or(total, |b| b as usize);
      on.extend(a..=b);
    } else {
      on.insert(s.parse().unwrap());
    }
  }
  on.into_iter().filter(|n| (1..=total).contains(n)).collect()
}

fn indented(lines: &[String], n: usize) -> Vec<String> {
  let of = |l: &String| l.len() - l.trim_start_matches(' ').len();
  let common = lines.iter().filter(|l| !l.is_empty()).map(of).min().unwrap_or(0);
  lines.iter().map(|l| if l.is_empty() { l.clone() } else { format!("{}{}", " ".repeat(n), &l[common..]) }).collect()
}

const TAGS: [&str; 4] = ["alpha", "be-ta", "gam.ma", "d_4"];

fn region(r: &mut Rng, n: &mut usize, open: &mut Vec<String>, depth: usize, out: &mut Vec<L>) {
  for _ in 0..r.range(1, 5) {
    if depth < 4 && r.chance(1, 2) {
      let t = TAGS[r.below(TAGS.len())].to_string();
      if open.contains(&t) {
        continue;
      }
      out.push(L::Start(t.clone()));
      open.push(t.clone());
      if r.chance(7, 8) {
        region(r, n, open, depth + 1, out);
      }
      open.pop();
      out.push(L::End(t));
    } else {
      let w = word(r, n);
      let pad = " ".repeat(if r.chance(1, 3) { r.below(7) } else { 0 });
      let w = match r.below(12) {
        0 => format!("{w} xtag::alpha[]"),
        1 => format!("tag::{w}[x]"),
        2 => format!("tag::alpha[]{w}"),
        3 => format!("tag::al pha[] {w}"),
        4 => format!("include :: {w}"),
        _ => w,
      };
      out.push(L::Text(format!("{pad}{w}")));
    }
  }
}

fn write(r: &mut Rng, l: &L) -> String {
  let (t, what) = match l {
    L::Text(t) => return t.clone(),
    L::Start(t) => (t, "tag"),
    L::End(t) => (t, "end"),
  };
  let pad = " ".repeat(if r.chance(1, 4) { r.below(5) } else { 0 });
  let (a, b) = *r.pick(&[("# ", ""), ("// ", ""), ("<!-- ", " -->"), ("/* ", " */"), ("-- ", ""), ("", ""), ("//", ""), ("; ", " and more")]);
  format!("{pad}{a}{what}::{t}[]{b}")
}

/// wild cards come first, but for `!*` after a tag
fn selection(r: &mut Rng, one: bool) -> Vec<(String, bool)> {
  const WILD: [&[(&str, bool)]; 9] = [
    &[("**", true)],
    &[("**", false)],
    &[("*", true)],
    &[("*", false)],
    &[("**", true), ("*", false)],
    &[("**", true), ("*", true)],
    &[("**", false), ("*", true)],
    &[("**", false), ("*", false)],
    &[],
  ];
  let wild = if r.chance(1, 3) { WILD[8] } else { WILD[r.below(8)] };
  let mut v: Vec<(String, bool)> = wild.iter().map(|(k, v)| (k.to_string(), *v)).collect();
  if one {
    v.truncate(1);
    if v.is_empty() || r.chance(1, 2) {
      return vec![(TAGS[r.below(4)].to_string(), r.chance(2, 3))];
    }
    return v;
  }
  let mut names = TAGS.map(String::from).to_vec();
  names.push("nope".into());
  r.shuffle(&mut names);
  let all = wild == WILD[0];
  let positive = r.chance(1, 2);
  for t in names.into_iter().take(r.range(if v.is_empty() { 1 } else { 0 }, 4)) {
    // `**` makes naming tags to select pointless
    v.push((t, if all { positive } else { r.chance(3, 5) }));
  }
  if wild.is_empty() && v.len() == 1 && v[0].1 && r.chance(1, 2) {
    v.push(("*".into(), false));
  }
  v
}

impl Prop for Select {
  fn id(&self) -> &'static str {
    "C30"
  }
  fn rule(&self) -> &'static str {
    "generated files with nested and repeated tagged regions, included with generated lines=, tag=, tags= and indent= selections, several of them in one document; text of the including block compared with the lines an independent selector picks"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 250_000,
      Tier::Thorough => 2_000_000,
    }
  }
  fn assumptions(&self) -> Vec<String> {
    vec!["the selector follows the algorithm of Asciidoctor's reader; a missing tag is a warning".into()]
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut n = 0;
    let mut ls = vec![];
    region(&mut r, &mut n, &mut vec![], 0, &mut ls);
    let text: Vec<String> = ls.iter().map(|l| write(&mut r, l)).collect();
    let name = *r.pick(&["part.rb", "part.adoc", "part.xml"]);
    let eol = if r.chance(1, 8) { "\r\n" } else { "\n" };
    let mut body = text.join(eol);
    if r.chance(3, 4) {
      body.push_str(eol);
    }
    let mut src = String::new();
    let mut want: Vec<String> = vec![];
    let mut missing: Vec<String> = vec![];
    let mut shapes: Vec<String> = vec![];
    for _ in 0..r.range(1, 3) {
      let (mut a, mut lines) = match r.below(5) {
        0 => {
          let specs: Vec<String> = (0..r.range(1, 3))
            .map(|_| {
              let a = r.range(1, text.len() + 2);
              match r.below(4) {
                0 => format!("{a}"),
                1 => format!("{a}..-1"),
                2 => format!("{a}.."),
                _ => format!("{a}..{}", a + r.below(text.len() + 1)),
              }
            })
            .collect();
          cx.count("lines");
          shapes.push("lines".into());
          let picked = ranges(text.len(), &specs).into_iter().map(|i| text[i - 1].clone()).collect();
          let a = match r.below(3) {
            0 if specs.len() == 1 => format!("lines={}", specs[0]),
            1 => format!("lines=\"{}\"", specs.join(",")),
            _ => format!("lines={}", specs.join(";")),
          };
          (a, picked)
        }
        k => {
          let one = k == 1;
          let sel = selection(&mut r, one);
          let (out, gone) = tagged(&ls, &sel);
          // `**` selects the lines tagged or not
          if sel[0] != ("**".to_string(), true) || sel.iter().any(|s| s.0 == "*") {
            missing.extend(gone);
          }
          let shape: Vec<String> = sel.iter().map(|(k, v)| format!("{}{}", if *v { "" } else { "!" }, if k.starts_with('*') { k } else { "t" })).collect();
          shapes.push(shape.join(";"));
          let parts: Vec<String> = sel.iter().map(|(k, v)| format!("{}{k}", if *v { "" } else { "!" })).collect();
          cx.count(if one { "tag" } else if sel.iter().any(|s| s.0.starts_with('*')) { "tags with wild cards" } else { "tags" });
          let a = match r.below(3) {
            _ if one => format!("tag={}", parts[0]),
            0 => format!("tags=\"{}\"", parts.join(",")),
            _ => format!("tags={}", parts.join(";")),
          };
          (a, out)
        }
      };
      if r.chance(1, 4) {
        let n = r.below(5);
        a.push_str(&format!(",indent={n}"));
        cx.count("indent");
        lines = indented(&lines, n);
      }
      if lines.is_empty() {
        cx.count("nothing selected");
      }
      cx.add("lines selected", lines.len() as u64);
      let before = r.chance(1, 2).then(|| word(&mut r, &mut n));
      let after = r.chance(1, 2).then(|| word(&mut r, &mut n));
      src.push_str("----\n");
      for b in &before {
        src.push_str(&format!("{b}\n"));
      }
      src.push_str(&format!("include::{name}[{a}]\n"));
      for b in &after {
        src.push_str(&format!("{b}\n"));
      }
      src.push_str("----\n\n");
      let all: Vec<String> = before.into_iter().chain(lines).chain(after).collect();
      want.push(all.join("\n"));
    }
    cx.nontrivial(&format!("{src}{body}"));
    let job = file_job(src, BTreeMap::from([(format!("/docs/{name}"), body.into_bytes())]));
    cx.eval();
    match conv::run(&job) {
      Run::Panic { msg, loc } => cx.fail(format!("panic {loc}"), msg, job.describe()),
      Run::Done(d) => {
        let html = d.html.unwrap_or_default();
        let Ok(nodes) = html::parse(&html) else {
          cx.fail("malformed html", html, job.describe());
          return;
        };
        let got: Vec<String> = html::find_all(&nodes, &|e| e.tag == "pre").iter().map(|e| e.text()).collect();
        if got != want {
          let i = (0..want.len()).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
          cx.fail(format!("lines differ for {}", shapes[i]), format!("block {i}: expected {:?}\n got {:?}", want.get(i), got.get(i)), job.describe());
          return;
        }
        for m in &missing {
          if !d.diags.iter().any(|w| w.message.contains("not found") && w.message.contains(&format!("`{m}`"))) {
            cx.fail("missing tag not reported", format!("no diagnostic names {m}: {:?}", d.diags), job.describe());
            return;
          }
        }
        if let Some(w) = d.diags.iter().find(|w| missing.is_empty() || !w.message.contains("not found")) {
          cx.fail("diagnostic", format!("{w:?}"), job.describe());
        }
      }
    }
    cx.sample(|| json!(job.src));
  }
}
