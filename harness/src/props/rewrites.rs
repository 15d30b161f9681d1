//! Metamorphic and self-consistency properties over generated and wild documents.

use serde_json::json;

use super::preproc::{any_doc, first_diff, same};
use super::totality::random_job;
use crate::conv::{self, Be, Job, Run};
use crate::gen_::*;
use crate::html;
use crate::model::*;
use crate::orch::*;
use crate::rng::Rng;

fn tiered(t: Tier, q: u64, th: u64) -> u64 {
  if t == Tier::Quick { q } else { th }
}

// ------------------------------------------------------------------ C15 comments

pub struct Comments;

const COMMENTS: [&str; 14] = [
  "// a comment", "//", "//x", "// *bold", "// |===", "// [[a", "// {undefined-attr}", "// <1>", "//= Not a Title", "// : e\u{301} 日本", "//-",
  "// `mono +++", "// \\", "// :attr: value",
];

/// for each position (before line i), whether a comment line may stand there
/// and whether it is at a boundary between blocks
fn positions(src: &str) -> Vec<(bool, bool)> {
  let lines: Vec<&str> = src.lines().collect();
  let mut verb: Option<String> = None;
  // a paragraph given a verbatim style
  let mut styled = false;
  // NB: tables have no comment blocks, only comment lines
  let mut table: Option<String> = None;
  let mut out = vec![];
  for i in 0..=lines.len() {
    let prev = if i > 0 { lines[i - 1] } else { "" };
    let next = lines.get(i).copied().unwrap_or("");
    let ok = verb.is_none()
      && !styled
      && !prev.starts_with([' ', '\t'])
      && !next.starts_with([' ', '\t'])
      && prev != "+"
      && next != "+"
      && !prev.ends_with('\\')
      && !prev.ends_with(" +");
    out.push((ok, ok && prev.is_empty() && table.is_none()));
    let Some(l) = lines.get(i) else { break };
    match &verb {
      Some(d) if d == l => verb = None,
      Some(_) => {}
      None => {
        let d = l.trim_end();
        if d.len() >= 4 && d.ends_with("===") && !d.starts_with('=') {
          match &table {
            None => table = Some(d.to_string()),
            Some(t) if t == d => table = None,
            _ => {} // one in a cell
          }
        }
        let same = |c: char| d.len() >= 4 && d.chars().all(|x| x == c);
        if same('-') || same('.') || same('+') || same('/') {
          verb = Some(d.to_string());
          styled = false;
        } else if d.starts_with("```") {
          verb = Some("```".to_string());
          styled = false;
        } else if d.starts_with("[verse") || d.starts_with("[listing") || d.starts_with("[literal") || d.starts_with("[source") || d.starts_with("[,") {
          styled = true;
        } else if styled && same('_') {
          // either opens a verse or closes what the styled paragraph is in
          if prev.starts_with('[') {
            verb = Some(d.to_string());
          }
          styled = false;
        } else if d.is_empty() {
          styled = false;
        }
      }
    }
  }
  out
}

impl Prop for Comments {
  fn id(&self) -> &'static str {
    "C15"
  }
  fn rule(&self) -> &'static str {
    "generated documents with comment lines and comment blocks inserted; output must equal the document's without them"
  }
  fn cases(&self, t: Tier) -> u64 {
    tiered(t, 40_000, 1_200_000)
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let lists = r.chance(1, 2);
    let mut c = Cfg::all();
    c.max_depth = r.range(1, 3);
    c.max_blocks = r.range(2, 6);
    if !lists {
      for k in [B_ULIST, B_OLIST, B_DLIST, B_CALLOUT] {
        c.blk[k] = 0;
      }
    }
    let d = Gen::new(&mut r, c).doc();
    let src = src_doc(&d);
    if !footnotes_ordered(&src) {
      return;
    }
    let pos = positions(&src);
    let lines: Vec<&str> = src.lines().collect();
    let mut out = String::new();
    let (mut n, mut nb) = (0, 0);
    let dense = r.range(2, 12);
    let head = lines.iter().position(|l| l.is_empty()).unwrap_or(0);
    let head = if lines.first().is_some_and(|l| l.starts_with("= ") || l.starts_with(':')) { head } else { 0 };
    for i in 0..=lines.len() {
      let (ok, boundary) = pos[i];
      if ok && r.chance(1, dense) {
        let blank_next = lines.get(i).is_none_or(|l| l.is_empty());
        // lines between the document title and the end of the header
        let header = i > 0 && i <= head;
        if (header || boundary && !lists && i > 0) && r.chance(1, 2) {
          let d = "////";
          out.push_str(d);
          out.push('\n');
          for _ in 0..r.below(4) {
            out.push_str(r.pick_s(&["text", "", "= Title", "----", "////x", "ifdef::x[", "|===", "[source", "* item", ":attr: x", "  indented", "+", "// comment"]));
            out.push('\n');
          }
          out.push_str(d);
          out.push_str("\n");
          if !header && r.chance(1, 2) {
            out.push('\n');
          }
          nb += 1;
        } else if !lists || (!boundary && !blank_next) {
          for _ in 0..r.range(1, 2) {
            out.push_str(r.pick_s(&COMMENTS));
            out.push('\n');
            n += 1;
          }
        }
      }
      if let Some(l) = lines.get(i) {
        out.push_str(l);
        out.push('\n');
      }
    }
    if n + nb == 0 {
      return;
    }
    cx.add("comment lines", n);
    cx.add("comment blocks", nb);
    cx.nontrivial(&out);
    let mut base_job = Job::new(src);
    base_job.be = if r.chance(1, 5) { Be::H5 } else { Be::Dr };
    let job = Job { src: out, ..base_job.clone() };
    let a = conv::run(&base_job);
    let b = conv::run(&job);
    same(cx, "comments", &a, &b, &job, &base_job);
    cx.sample(|| json!(job.src));
  }
}

// ------------------------------------------------------------------ C19 determinism

pub struct Determinism;

impl Prop for Determinism {
  fn id(&self) -> &'static str {
    "C19"
  }
  fn rule(&self) -> &'static str {
    "wild and generated jobs converted twice, and from several threads at once among other conversions; every result must be identical"
  }
  fn cases(&self, t: Tier) -> u64 {
    tiered(t, 12_000, 400_000)
  }
  fn max_workers(&self) -> usize {
    4
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let jobs: Vec<Job> = (0..4)
      .map(|_| {
        let mut j = random_job(&mut r);
        if r.chance(1, 3) {
          if let Some((_, s)) = any_doc(&mut r, 2) {
            j.src = s;
          }
        }
        j
      })
      .collect();
    let base: Vec<Run> = jobs.iter().map(conv::run).collect();
    // again, in another order
    for i in (0..4).rev() {
      let b = conv::run(&jobs[i]);
      cx.count("repeated");
      same_exact(cx, "repeated", &base[i], &b, &jobs[i]);
    }
    // all at once, each thread starting with another job
    let res: Vec<Vec<(usize, Run)>> = std::thread::scope(|s| {
      let hs: Vec<_> = (0..4)
        .map(|t| {
          let jobs = &jobs;
          std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, move || (0..4).map(|i| ((i + t) % 4, conv::run(&jobs[(i + t) % 4]))).collect::<Vec<_>>())
            .unwrap()
        })
        .collect();
      hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for v in res {
      for (i, b) in v {
        cx.count("parallel");
        same_exact(cx, "parallel", &base[i], &b, &jobs[i]);
      }
    }
    for j in &jobs {
      cx.nontrivial(&j.src);
    }
    cx.sample(|| json!(jobs[0].src));
  }
}

fn same_exact(cx: &mut Cx, what: &str, a: &Run, b: &Run, job: &Job) {
  cx.eval();
  match (a, b) {
    (Run::Done(x), Run::Done(y)) => {
      if x.html != y.html {
        cx.fail(format!("{what}: output differs"), first_diff(x.html.as_deref().unwrap_or(""), y.html.as_deref().unwrap_or("")), job.describe());
      } else if x.diags != y.diags {
        cx.fail(format!("{what}: diagnostics differ"), format!("{:?}\n{:?}", x.diags, y.diags), job.describe());
      } else if x.resolved != y.resolved {
        cx.fail(format!("{what}: include requests differ"), format!("{:?}\n{:?}", x.resolved, y.resolved), job.describe());
      }
    }
    (Run::Panic { .. }, Run::Panic { .. }) => {}
    _ => cx.fail(format!("{what}: one panics"), format!("{a:?} {b:?}").chars().take(300).collect::<String>(), job.describe()),
  }
}

// ------------------------------------------------------------------ C20 strictness

pub struct Strictness;

impl Prop for Strictness {
  fn id(&self) -> &'static str {
    "C20"
  }
  fn rule(&self) -> &'static str {
    "wild and generated jobs under strict and lenient parsing: strict accepts exactly the documents lenient has no diagnostic for, with the same output; strict's first complaint is one of lenient's"
  }
  fn cases(&self, t: Tier) -> u64 {
    tiered(t, 120_000, 4_000_000)
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut job = random_job(&mut r);
    if r.chance(1, 4) {
      if let Some((_, s)) = any_doc(&mut r, 2) {
        job.src = s;
      }
    }
    cx.nontrivial(&job.src);
    job.strict = false;
    let a = conv::run(&job);
    let sj = Job { strict: true, ..job.clone() };
    let b = conv::run(&sj);
    cx.eval();
    let (a, b) = match (a, b) {
      (Run::Done(a), Run::Done(b)) => (a, b),
      _ => return, // C01's business
    };
    if a.html.is_none() {
      cx.fail("lenient parse rejected", format!("{:?}", a.diags.first()), job.describe());
      return;
    }
    match (&b.html, a.diags.is_empty()) {
      (Some(h), true) => {
        cx.count("accepted by both");
        if a.html.as_deref() != Some(h) {
          cx.fail("strict output differs", first_diff(a.html.as_deref().unwrap(), h), job.describe());
        }
        if !b.diags.is_empty() {
          cx.fail("strict accepts with diagnostics", format!("{:?}", b.diags), job.describe());
        }
      }
      (Some(_), false) => cx.fail("strict accepts what lenient warns of", format!("{:?}", a.diags.first()), job.describe()),
      (None, true) => cx.fail("strict rejects what lenient has no warning for", format!("{:?}", b.diags.first()), job.describe()),
      (None, false) => {
        cx.count("rejected by strict");
        match b.diags.first() {
          None => cx.fail("strict rejects without a diagnostic", String::new(), job.describe()),
          Some(d) => {
            if !a.diags.contains(d) {
              cx.fail(format!("strict complains of something else: {}", d.message), format!("strict {d:?}\nlenient {:?}", a.diags), job.describe());
            }
          }
        }
      }
    }
    cx.sample(|| json!(job.src));
  }
}

// ------------------------------------------------------------------ C18 well-formedness

pub struct WellFormed;

const TAGS: &[&str] = &[
  "div", "p", "span", "a", "strong", "em", "code", "mark", "sub", "sup", "b", "i", "kbd", "br", "hr", "img", "ul", "ol", "li", "dl", "dt", "dd",
  "table", "colgroup", "col", "thead", "tbody", "tfoot", "tr", "th", "td", "caption", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "blockquote", "cite",
  "details", "summary", "input", "video", "audio", "iframe", "object", "html", "head", "body", "meta", "title", "link", "style", "script", "section",
  "article", "header", "footer", "nav", "main", "aside", "figure", "figcaption", "source", "var", "u", "del", "small", "dfn", "q", "s", "title", "track", "svg", "strike", "big", "samp", "time", "ins",
];
const ATTRS: &[&str] = &[
  "id", "class", "href", "src", "alt", "width", "height", "title", "style", "start", "type", "reversed", "colspan", "rowspan", "data", "target", "rel",
  "data-item-complete", "data-lang", "data-value", "checked", "disabled", "content", "charset", "name", "http-equiv", "lang", "xmlns", "controls", "loop", "autoplay",
  "poster", "frameborder", "allowfullscreen", "open", "role", "preload", "aria-label", "aria-hidden", "hidden", "loading", "data-conum", "value", "nowrap", "allow", "muted", "xml:lang", "data-id", "tabindex",
  "span", "align", "valign", "epub:type", "data-callout-number", "fallback", "usemap", "color", "sizes", "defer", "async", "cite", "download", "data-caption", "data-uri", "media", "datetime",
];

const HOSTILE: &[&str] = &[
  "<script>alert(1)</script>", "</p>", "</div>", "<b onx=y>", "\"", "' onx='", "\" onx=\"y", "\"><i>", "<", ">", "&", "&lt;", "&#60;", "<!--", "-->", "<<", "]]>", "<img src=x>", "\">", "a\"b", "a<b", "{lt}", "&quot;", "x&y=z",
];

const PLACES: &[&str] = &[
  "image:H[]", "image::H[]", "image:x.png[H]", "image::x.png[H]", "image:x.png[alt,role=\"H\"]", "image::x.png[alt,title=\"H\"]", "image:x.png[alt,width=\"H\"]", "image::x.png[a,b,H]", "image:x.png[link=\"H\"]",
  "link:H[t]", "link:x[H]", "link:x[t,role=\"H\"]", "link:x[t,window=\"H\"]", "link:x[t,id=\"H\"]", "https://x.org/H[t]", "https://x.org/H", "mailto:a@b.co[t,H,H]", "mailto:H[]", "xref:H[t]", "<<H>>", "<<H,H>>", "xref:x[H]",
  "[[H]]text", "[#H]#text#", "[.H]#text#", "anchor:H[]", "[H]*text*", "footnote:[H]", "footnote:H[text]", "footnote:H[]", "kbd:[H]", "btn:[H]", "menu:H[H > H]", "icon:H[]", "icon:x[role=\"H\"]", "icon:x[title=\"H\"]", "((H))", "(((H)))", "indexterm:[H]",
  "*H*", "`H`", "_H_", "#H#", "^H^", "~H~", "\"`H`\"", "`+H+`", "+H+", "H", "{counter:H}", "stem:[H]", "<H>", "\\H",
];
const BLOCKS: &[&str] = &[
  ".H\ntext", "[#H]\ntext", "[.H]\ntext", "[role=\"H\"]\ntext", "[id=\"H\"]\ntext", "[[H]]\ntext", "[[x,H]]\ntext", "[reftext=\"H\"]\ntext", "[quote,H,H]\ntext", "[quote,H,H]\n____\nH\n____", "[verse,H,H]\nH", "[source,H]\n----\nH\n----", "[source,role=\"H\"]\n----\nH\n----",
  "----\nH\n----", "....\nH\n....", "====\nH\n====", "[NOTE]\n====\nH\n====", "[NOTE,caption=\"H\"]\n====\nH\n====", "NOTE: H", "* H", "* [x] H", ". H", "[start=H]\n. x", "[H]\n. x", "H:: H", "[horizontal,labelwidth=\"H\"]\na:: b", "[qanda]\nH:: H", "[horizontal]\nH:: H", "== H", "[discrete]\n== H", "[[H]]\n== H",
  "|===\n|H |H\n\n|H |H\n|===", "[cols=\"H\"]\n|===\n|a\n|===", "[%header,width=\"H\"]\n|===\n|a\n|===", "[frame=\"H\",grid=\"H\",stripes=\"H\"]\n|===\n|a\n|===", ".H\n|===\n|a\n|===", "[caption=\"H\"]\n.t\n|===\n|a\n|===", "[cols=\"1a\"]\n|===\n|H\n|===", ",===\nH,\"H\"\n,===", "[float=\"H\"]\n|===\n|a\n|===", "[cols=\"1l\"]\n|===\n|H\n|===",
  "video::H[]", "video::x[H]", "video::x[poster=\"H\",width=\"H\",start=\"H\"]", "video::H[youtube]", "video::H[vimeo]", "video::x[theme=H,lang=H]", "audio::H[]", "audio::x[start=H]", "image::x.png[H]\n", "[%collapsible]\n.H\n====\nH\n====", "[caption=\"H\"]\n.t\n====\nx\n====", "\"H\"\n-- H, H", "> H", "```H\nH\n```", "'''\nH", "  H", "[abstract]\nH", "****\nH\n****", "a <1>\n\n<1> H", "----\na <1>\n----\n<1> H", "toc::[]", ":H: H", ":foo: H\n\n{foo}", "[H]", "[H=H]\ntext", "[%H]\ntext", "[example,H]\ntext", "[H]\n--\ntext\n--", "[stem]\n++++\nH\n++++", "[link=\"H\"]\nimage::x.png[]", "[title=\"H\"]\ntext", "[align=H,float=H]\nimage::x.png[]",
];

/// nothing in it may reach the output as it is
fn no_passthrough(s: &str) -> bool {
  !["+++", "pass", "$$", "subs=", "stem", "math", "++", "include::"].iter().any(|p| s.contains(p))
}

fn hostile_doc(r: &mut Rng) -> String {
  let fill = |r: &mut Rng, t: &str| -> String {
    let mut o = String::new();
    for c in t.chars() {
      if c == 'H' {
        match r.below(5) {
          0 => o.push_str(r.pick_s(&["word", "a b", "x1", "50%", "2", "left", ""])),
          1 => {
            o.push_str(r.pick_s(HOSTILE));
            o.push_str(r.pick_s(HOSTILE));
          }
          _ => o.push_str(r.pick_s(HOSTILE)),
        }
      } else {
        o.push(c);
      }
    }
    o
  };
  let mut s = String::new();
  if r.chance(1, 3) {
    s.push_str("= ");
    let t = r.pick_s(PLACES);
    s.push_str(&fill(r, t));
    s.push('\n');
    for _ in 0..r.below(4) {
      let l = r.pick_s(&["H H <H@x.org>", "A B <H>", "v1, 2020-01-01: H", "v1, H", ":description: H", ":keywords: H", ":author: H", ":email: H", ":copyright: H", ":lang: H", ":toc-title: H", ":toc:", ":toc-class: H", ":icons: font", ":icons: image", ":iconsdir: H", ":imagesdir: H", ":sectnums:", ":sectanchors:", ":experimental:", ":css-signature: H", ":max-width: H", ":stylesheet: H", ":linkcss:", ":table-caption: H", ":figure-caption: H", ":example-caption: H", ":note-caption: H", ":favicon: H", ":title: H", ":source-highlighter: H", ":version-label: H", ":last-update-label: H", ":idprefix: H", ":idseparator: H", ":xrefstyle: H", ":relfilesuffix: H", ":footnote-x: H", ":doctype: book", ":manpurpose: H", ":untitled-label: H", ":appendix-caption: H", ":stylesdir: H", ":docinfo: H", ":webfonts: H", ":sectlinks:", ":app-name: H"]);
      s.push_str(&fill(r, l));
      s.push('\n');
    }
    s.push('\n');
  }
  for _ in 0..r.range(1, 4) {
    let t = if r.chance(1, 2) { r.pick_s(BLOCKS).to_string() } else { format!("a {} b", r.pick_s(PLACES)) };
    // an inline inside of a block's text
    let t = if r.chance(1, 3) { t.replacen('H', r.pick_s(PLACES), 1) } else { t };
    s.push_str(&fill(r, &t));
    s.push_str("\n\n");
  }
  s
}

impl Prop for WellFormed {
  fn id(&self) -> &'static str {
    "C18"
  }
  fn rule(&self) -> &'static str {
    "wild documents and documents with markup-breaking text in every syntactic place, without passthroughs; output parsed by a strict reader and checked against the backends' vocabulary and nesting rules"
  }
  fn cases(&self, t: Tier) -> u64 {
    tiered(t, 150_000, 5_000_000)
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let mut job = random_job(&mut r);
    if r.chance(1, 2) {
      job.src = hostile_doc(&mut r);
      job.files = None;
      cx.count("hostile");
    }
    if cx.index == 0 {
      job.src = "an escaped \\<- arrow".to_string();
    }
    if !no_passthrough(&job.src) || job.files.iter().flat_map(|f| f.values()).any(|f| !no_passthrough(&String::from_utf8_lossy(f))) {
      return;
    }
    cx.nontrivial(&job.src);
    cx.eval();
    let Run::Done(d) = conv::run(&job) else { return };
    let Some(mut h) = d.html else { return };
    // known finding: the `<` of an escaped arrow
    let escaped_arrow = |s: &str| s.contains("\\<-");
    if h.contains("<-") && (escaped_arrow(&job.src) || job.files.iter().flat_map(|f| f.values()).any(|f| escaped_arrow(&String::from_utf8_lossy(f)))) {
      cx.fail("bare `<` of an escaped arrow: `\\<-`", clip_html(&h), job.describe());
      h = h.replace("<-", "&lt;-");
    }
    match html::parse(&h) {
      Err(e) => {
        let sig: String = e.split('`').enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, s)| s).collect();
        cx.fail(format!("malformed: {sig}"), format!("{e}\n{}", clip_html(&h)), job.describe());
      }
      Ok(n) => {
        if let Some((sig, what)) = bad_markup(&n) {
          cx.fail(sig, format!("{what}\n{}", clip_html(&h)), job.describe());
        }
      }
    }
    cx.sample(|| json!(job.src));
  }
}

fn clip_html(h: &str) -> String {
  html::clip(h, 1500)
}

/// the first element which no document may produce, or which stands where it can't
pub fn bad_markup(n: &[html::Node]) -> Option<(String, String)> {
  let mut bad = None;
  html::walk_anc(n, &mut vec![], &mut |e, anc| {
    if bad.is_some() {
      return;
    }
    let parent = anc.last().map(|p| p.tag.as_str()).unwrap_or("");
    let t = e.tag.as_str();
    let mut no = |why: String| bad = Some((format!("markup: {why}"), format!("<{t}> in <{parent}> {:?}", e.attrs)));
    if !TAGS.contains(&t) {
      return no(format!("element {t}"));
    }
    for (k, v) in &e.attrs {
      if !ATTRS.contains(&k.as_str()) {
        return no(format!("attribute {k}"));
      }
      if k == "id" && v.is_empty() {
        return no("empty id".into());
      }
    }
    let ok = match t {
      "li" => parent == "ul" || parent == "ol",
      "dt" | "dd" => parent == "dl",
      "tr" => ["thead", "tbody", "tfoot", "table"].contains(&parent),
      "td" | "th" => parent == "tr",
      "thead" | "tbody" | "tfoot" | "colgroup" | "caption" => parent == "table",
      "col" => parent == "colgroup",
      "summary" => parent == "details",
      _ => true,
    };
    if !ok {
      return no(format!("{t} in {parent}"));
    }
    let block = ["div", "p", "ul", "ol", "dl", "table", "pre", "blockquote", "h1", "h2", "h3", "h4", "h5", "h6", "hr", "section", "details", "article", "figure"];
    if block.contains(&t) && ["p", "h1", "h2", "h3", "h4", "h5", "h6", "a", "strong", "em", "span", "code", "mark", "sub", "sup"].contains(&parent) {
      return no(format!("{t} in {parent}"));
    }
    if t == "a" && anc.iter().any(|p| p.tag == "a") && e.attr("href").is_some() && e.attr("id").is_none() {
      // NB: a link in a link's text is the author's doing
    }
  });
  bad
}
