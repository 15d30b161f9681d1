//! C27: the page around the content says what the header says.

use std::collections::BTreeMap;

use crate::conv::{self, Be, Job, Run, Src};
use crate::html::{self, El, Node};
use crate::model::{canon, diff, el, txt, word};
use crate::orch::*;
use crate::rng::Rng;
use asciidork_core::{AttrValue, SafeMode};

pub struct Page;

#[derive(Clone, Debug)]
struct Auth {
  first: String,
  middle: Option<String>,
  last: Option<String>,
  email: Option<String>,
}

impl Auth {
  fn full(&self) -> String {
    [Some(&self.first), self.middle.as_ref(), self.last.as_ref()].iter().flatten().map(|s| s.as_str()).collect::<Vec<_>>().join(" ")
  }
  fn initials(&self) -> String {
    [Some(&self.first), self.middle.as_ref(), self.last.as_ref()].iter().flatten().filter_map(|s| s.chars().next()).collect()
  }
}

fn name(r: &mut Rng) -> String {
  r.pick_s(&[
    "Ann", "Bob", "Zoë", "O’Neil", "Jean-Luc", "Mary Ann", "L.", "J.R.R.", "López del Toro", "Cher", "de", "Nguyễn", "X", "李", "MacLeod", "Jr.", "D'Arcy", "van den der Berg", "y de la Vega Gil",
  ])
  .to_string()
}

struct Hdr {
  /// source lines between title and the end of the header
  attrs: Vec<(String, Option<String>)>,
  vals: BTreeMap<String, String>,
}

const LANGS: &[&str] = &["de", "en-GB", "fr"];
const TEXTS: &[&str] = &["plain text", "a & b", "1 < 2 > 0", "say \"hi\"", "it's", "a, b, c", "über uns"];
const DATES: &[&str] = &["2024-02-29", "2023-12-01", "1999-01-31"];

fn text(r: &mut Rng) -> String {
  r.pick_s(TEXTS).to_string()
}

/// children of head that carry no information of the document
fn keep_head(n: &Node) -> bool {
  match n {
    Node::El(e) => e.tag != "style" && !(e.tag == "link" && e.attr("rel") == Some("stylesheet")),
    Node::Text(t) => !t.trim().is_empty(),
    _ => true,
  }
}

fn meta(name: &str, v: &str) -> Node {
  el("meta", &[("name", name), ("content", v)], vec![])
}

/// what stands around the content: children of head, then of the body with empty content and no contents list
fn page_of(nodes: &[Node]) -> Result<Vec<Node>, String> {
  let Some(h) = html::els(nodes).find(|e| e.tag == "html") else { return Err("no html element".into()) };
  let mut out = h.clone();
  for k in out.kids.iter_mut() {
    if let Node::El(e) = k {
      match e.tag.as_str() {
        "head" => e.kids.retain(keep_head),
        "body" => strip(e),
        _ => {}
      }
    }
  }
  Ok(canon(&[Node::El(out)]))
}

fn strip(body: &mut El) {
  body.kids.retain(|n| !matches!(n, Node::El(e) if e.attr("id") == Some("toc")));
  for k in body.kids.iter_mut() {
    if let Node::El(e) = k {
      if e.attr("id") == Some("content") {
        e.kids.clear();
      } else {
        strip(e)
      }
    }
  }
}

impl Prop for Page {
  fn id(&self) -> &'static str {
    "C27"
  }
  fn rule(&self) -> &'static str {
    "head, header, footer, docinfo and header attributes equal the ones the generated header states"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 40_000,
      Tier::Thorough => 800_000,
    }
  }
  fn run(&self, cx: &mut Cx) {
    if cx.index % 4 == 0 {
      return wrapped(cx);
    }
    let (job, exp, refs) = make(cx);
    cx.nontrivial(&job.src);
    cx.sample(|| serde_json::json!({"src": job.src}));
    cx.eval();
    let d = match conv::run(&job) {
      Run::Panic { msg, loc } => {
        cx.fail(format!("panic {loc}"), format!("{loc}: {msg}"), job.describe());
        return;
      }
      Run::Done(d) => d,
    };
    let Some(h) = d.html else {
      cx.fail("rejected", format!("valid document rejected: {:?}", d.diags.first()), job.describe());
      return;
    };
    if let Some(w) = d.diags.first() {
      cx.fail(format!("diagnostic: {}", w.message), format!("valid document got diagnostic {w:?}"), job.describe());
      return;
    }
    let n = match html::parse(&h) {
      Err(e) => {
        cx.fail("malformed html", format!("{e}\n{h}"), job.describe());
        return;
      }
      Ok(n) => n,
    };
    // the references in the content
    for (name, want) in &refs {
      let id = format!("r-{name}");
      let found = html::find_all(&n, &|e| e.id() == Some(id.as_str()));
      let got = found.first().map(|e| e.text());
      if got.as_deref() != Some(want.as_str()) {
        cx.fail(format!("reference {{{}}}", name.trim_end_matches(|c: char| c.is_ascii_digit())), format!("{{{name}}} expected {want:?}, got {got:?}"), job.describe());
        return;
      }
      cx.count("attribute references");
    }
    let got = if job.embedded {
      // only a title may stand before the content
      canon(&n.iter().filter(|n| matches!(n, Node::El(e) if e.tag == "h1" || e.tag == "header" || e.tag == "footer" || e.attr("id").is_some_and(|i| i == "header" || i == "footer"))).cloned().collect::<Vec<_>>())
    } else {
      match page_of(&n) {
        Ok(p) => p,
        Err(e) => {
          cx.fail("not a page", e, job.describe());
          return;
        }
      }
    };
    if let Some((path, what)) = diff(&canon(&exp), &got) {
      let tail: String = path.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
      cx.fail(format!("page differs at {tail}"), format!("at {path}\n {what}"), job.describe());
    }
  }
}

/// a job, the page it has to give and the texts of references (by name)
fn make(cx: &mut Cx) -> (Job, Vec<Node>, Vec<(String, String)>) {
  let mut rng = cx.rng.clone();
  let r = &mut rng;
  let h5 = r.chance(1, 2);
  let standalone = r.chance(5, 6);
  let mut h = Hdr { attrs: vec![], vals: BTreeMap::new() };
  let mut serial = 0;
  let titled = r.chance(9, 10);

  // title
  let (title_src, title_dom, title_plain): (String, Vec<Node>, String) = {
    let (mut s, mut d, mut p) = (String::new(), vec![], String::new());
    for i in 0..r.range(1, 4) {
      if i > 0 {
        s.push(' ');
        p.push(' ');
        d.push(txt(" "));
      }
      let w = word(r, &mut serial);
      match r.weighted(&[6, 1, 1, 1, 1, 1]) {
        0 => {
          s.push_str(&w);
          p.push_str(&w);
          d.push(txt(w));
        }
        1 => {
          s.push_str(&format!("*{w}*"));
          p.push_str(&w);
          d.push(el("strong", &[], vec![txt(w)]));
        }
        2 => {
          s.push_str(&format!("{w} & {w}"));
          p.push_str(&format!("{w} & {w}"));
          d.push(txt(format!("{w} & {w}")));
        }
        3 => {
          s.push_str(&format!("`{w}`"));
          p.push_str(&w);
          d.push(el("code", &[], vec![txt(w)]));
        }
        4 => {
          s.push_str(&format!("<{w}>"));
          p.push_str(&format!("<{w}>"));
          d.push(txt(format!("<{w}>")));
        }
        _ => {
          s.push_str("{the-job}");
          p.push_str("the job's");
          d.push(txt("the job’s"));
        }
      }
    }
    (s, d, p)
  };

  // authors and revision
  let mut auths: Vec<Auth> = vec![];
  let mut author_line = None;
  let mut rev_line = None;
  let (mut revnumber, mut revdate, mut revremark) = (None::<String>, None::<String>, None::<String>);
  if titled {
    match r.weighted(&[2, 5, 1]) {
      1 => {
        for _ in 0..r.weighted(&[0, 5, 2, 1]) {
          let first = loop {
            let n = name(r);
            // a line starting with another character is not an author line
            if n != "Jr." {
              break n;
            }
          };
          let last = if r.chance(5, 6) { Some(name(r)) } else { None };
          let middle = if last.is_some() && r.chance(1, 3) { Some(name(r)) } else { None };
          let email = if r.chance(1, 2) { Some(r.pick_s(&["a@b.org", "first.last+tag@example.co.uk", "x_y@d-e.com"]).to_string()) } else { None };
          auths.push(Auth { first, middle, last, email });
        }
        let joint = r.pick_s(&["; ", ";  ", " ; "]);
        let mut line = auths
          .iter()
          .map(|a| {
            let mut s: Vec<String> = [Some(&a.first), a.middle.as_ref(), a.last.as_ref()].iter().flatten().map(|s| s.replace(' ', "_")).collect();
            if let Some(e) = &a.email {
              s.push(format!("<{e}>"));
            }
            s.join(" ")
          })
          .collect::<Vec<_>>()
          .join(joint);
        if r.chance(1, 8) {
          line.push(' ');
        }
        author_line = Some(line);
        if r.chance(3, 5) {
          let v = r.pick_s(&["1", "2.0", "7.5.1", "10-beta", "3rc1"]).to_string();
          let date = r.pick_s(&["2024-02-29", "October 31, 2021", "01/02/2003", "today"]).to_string();
          let remark = r.pick_s(&["First draft", "see: the notes", "more, better & faster", "x"]).to_string();
          let p = r.pick_s(&["v", "", "LPR", "v"]);
          let (line, n, d, m) = match r.below(6) {
            0 => (format!("v{v}"), Some(v), None, None),
            1 => (format!("{p}{v}, {date}"), Some(v), Some(date), None),
            2 => (format!("{p}{v}, {date}: {remark}"), Some(v), Some(date), Some(remark)),
            3 => (format!("{p}{v}: {remark}"), Some(v), None, Some(remark)),
            4 => ("2024-02-29".to_string(), None, Some("2024-02-29".to_string()), None),
            _ => (format!("{p}{v},{date}:{remark}"), Some(v), Some(date), Some(remark)),
          };
          rev_line = Some(line);
          revnumber = n;
          revdate = d;
          revremark = m;
        }
      }
      2 => {
        // by attribute entries
        let a = Auth {
          first: r.pick_s(&["Ann", "Zoë", "Cher"]).into(),
          middle: None,
          last: if r.chance(2, 3) { Some(r.pick_s(&["Lee", "de Toro", "O’Neil"]).to_string()) } else { None },
          email: if r.chance(1, 2) { Some("q@r.st".into()) } else { None },
        };
        let v = [Some(&a.first), a.last.as_ref()].iter().flatten().map(|s| s.replace(' ', "_")).collect::<Vec<_>>().join(" ");
        h.attrs.push(("author".into(), Some(v)));
        if let Some(e) = &a.email {
          h.attrs.push(("email".into(), Some(e.clone())));
        }
        auths.push(a);
      }
      _ => {}
    }
    if rev_line.is_none() {
      if r.chance(1, 5) {
        revnumber = Some(r.pick_s(&["4.2", "1", "x9"]).into());
        h.attrs.push(("revnumber".into(), revnumber.clone()));
      }
      if r.chance(1, 5) {
        revdate = Some(r.pick_s(DATES).into());
        h.attrs.push(("revdate".into(), revdate.clone()));
      }
      if r.chance(1, 6) {
        revremark = Some(text(r));
        h.attrs.push(("revremark".into(), revremark.clone()));
      }
    }
  }

  // attributes of the page
  macro_rules! maybe {
    ($n:expr, $of:expr, $name:expr, $v:expr) => {
      if r.chance($n, $of) {
        let v: String = $v;
        h.attrs.push(($name.into(), Some(v.clone())));
        Some(v)
      } else {
        None
      }
    };
  }
  let lang = maybe!(1, 5, "lang", r.pick_s(LANGS).to_string());
  let nolang = maybe!(1, 12, "nolang", String::new()).is_some();
  let description = maybe!(1, 5, "description", text(r));
  let keywords = maybe!(1, 6, "keywords", text(r));
  let copyright = maybe!(1, 6, "copyright", text(r));
  let app = maybe!(1, 6, "app-name", text(r));
  let encoding = maybe!(1, 12, "encoding", "utf-8".to_string());
  let reproducible = maybe!(1, 8, "reproducible", String::new()).is_some();
  let favicon = maybe!(1, 6, "favicon", r.pick_s(&["", "images/me.png", "x/fav.ico", "logo.svg"]).to_string());
  let css = maybe!(1, 6, "css-signature", r.pick_s(&["sig", "my-doc"]).to_string());
  let page_title = maybe!(1, 6, "title", text(r));
  let noheader = maybe!(1, 10, "noheader", String::new()).is_some();
  let nofooter = maybe!(1, 10, "nofooter", String::new()).is_some();
  let maxw = maybe!(1, 8, "max-width", r.pick_s(&["40em", "900px"]).to_string());
  let label = match r.below(12) {
    0 => {
      h.attrs.push(("version-label".into(), Some("Edition".into())));
      Some("Edition")
    }
    1 => {
      h.attrs.push(("version-label".into(), None));
      None
    }
    _ => Some("Version"),
  };
  let toc = match r.below(8) {
    0 => Some("left"),
    1 => Some("right"),
    2 => Some(""),
    _ => None,
  };
  if let Some(t) = toc {
    h.attrs.push(("toc".into(), Some(t.into())));
  }
  let mut show = standalone;
  match r.below(8) {
    0 => {
      h.attrs.push(("notitle".into(), Some(String::new())));
      show = false;
    }
    1 => {
      h.attrs.push(("showtitle".into(), Some(String::new())));
      show = true;
    }
    2 => {
      h.attrs.push(("showtitle".into(), None));
      show = false;
    }
    3 => {
      h.attrs.push(("notitle".into(), None));
      show = true;
    }
    _ => {}
  }
  let doctype = match r.below(6) {
    0 => {
      h.attrs.push(("doctype".into(), Some("book".into())));
      "book"
    }
    1 => {
      h.attrs.push(("doctype".into(), Some("article".into())));
      "article"
    }
    _ => "article",
  };
  // the caller has the last word on it, if it is not a mere default
  let mut job_doctype = None;
  let mut doctype_attr = None;
  let doctype = if r.chance(1, 3) {
    let (name, dt) = if r.chance(1, 2) { ("book", asciidork_core::DocType::Book) } else { ("article", asciidork_core::DocType::Article) };
    let in_header = h.attrs.iter().any(|a| a.0 == "doctype");
    match r.below(3) {
      0 => {
        job_doctype = Some(dt);
        name
      }
      k => {
        doctype_attr = Some(("doctype".to_string(), AttrValue::String(name.into()), k == 2));
        if k == 2 && in_header { doctype } else { name }
      }
    }
  } else {
    doctype
  };
  // some are given by the caller
  let mut by_job: Vec<(String, AttrValue, bool)> = vec![];
  let mut all: Vec<(String, Option<String>)> = vec![];
  for (k, v) in std::mem::take(&mut h.attrs) {
    const FREE: &[&str] = &[
      "lang", "nolang", "description", "keywords", "copyright", "app-name", "reproducible", "favicon", "css-signature", "title", "noheader", "nofooter", "max-width",
      "version-label", "toc", "notitle", "showtitle", "revnumber", "revdate", "revremark",
    ];
    if FREE.contains(&k.as_str()) && r.chance(1, 8) {
      let v = match v {
        None => AttrValue::Bool(false),
        Some(v) if v.is_empty() => AttrValue::Bool(true),
        Some(v) => AttrValue::String(v.clone()),
      };
      by_job.push((k.clone(), v, r.chance(1, 2)));
    } else {
      if FREE.contains(&k.as_str()) && r.chance(1, 12) {
        // the caller's value is only a default
        by_job.push((k.clone(), AttrValue::String("overridden".into()), true));
      }
      all.push((k, v));
    }
  }
  h.attrs = all;
  r.shuffle(&mut h.attrs);
  // an email belongs to the author named before it
  if let (Some(e), Some(a)) = (h.attrs.iter().position(|a| a.0 == "email"), h.attrs.iter().position(|a| a.0 == "author")) {
    if e < a {
      h.attrs.swap(e, a);
    }
  }

  // docinfo
  let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
  let mut di: [Vec<Node>; 3] = [vec![], vec![], vec![]];
  let mut safe = SafeMode::Secure;
  let with_docinfo = r.chance(1, 3);
  if with_docinfo {
    safe = [SafeMode::Secure, SafeMode::Safe, SafeMode::Unsafe, SafeMode::Server][r.below(4)];
    let dir = match r.below(4) {
      0 => Some("meta"),
      1 => Some("a/b"),
      _ => None,
    };
    if let Some(d) = dir {
      h.attrs.push(("docinfodir".into(), Some(d.into())));
    }
    let subs = r.below(4);
    match subs {
      1 => h.attrs.push(("docinfosubs".into(), Some("attributes,replacements".into()))),
      2 => h.attrs.push(("docinfosubs".into(), Some("replacements".into()))),
      3 => h.attrs.push(("docinfosubs".into(), Some("attributes".into()))),
      _ => {}
    }
    let (attr_subs, repl) = (subs != 2, subs == 1 || subs == 2);
    // which of [private, shared] for [head, header, footer]
    let mut on = [[false; 2]; 3];
    match r.below(6) {
      0 => {
        h.attrs.push(("docinfo1".into(), Some(String::new())));
        on = [[false, true]; 3];
      }
      1 => {
        h.attrs.push(("docinfo2".into(), Some(String::new())));
        on = [[true, true]; 3];
      }
      2 => {
        h.attrs.push(("docinfo".into(), Some(String::new())));
        on = [[true, false]; 3];
      }
      3 => {}
      _ => {
        let mut parts = vec![];
        for _ in 0..r.range(1, 3) {
          let p = r.below(2);
          let kind = ["private", "shared"][p];
          let q = r.below(4);
          parts.push(match q {
            0 => {
              for o in on.iter_mut() {
                o[p] = true;
              }
              kind.to_string()
            }
            q => {
              on[q - 1][p] = true;
              format!("{kind}-{}", ["head", "header", "footer"][q - 1])
            }
          });
        }
        h.attrs.push(("docinfo".into(), Some(parts.join(r.pick_s(&[",", ", "])))));
      }
    }
    h.attrs.push(("di-app".into(), Some("the app".into())));
    let missing = r.pick_s(&["", "", "skip", "drop", "drop-line"]);
    if missing != "" {
      h.attrs.push(("attribute-missing".into(), Some(missing.into())));
    }
    for place in 0..3 {
      let mut dom: [Vec<Node>; 2] = [vec![], vec![]];
      for p in 0..2 {
        if !r.chance(5, 6) {
          continue;
        }
        let mut src = String::new();
        for _ in 0..r.range(1, 3) {
          let w = word(r, &mut serial);
          let (s, t) = match r.below(if missing == "" { 6 } else { 8 }) {
            0 => (format!("{w} {{di-app}}"), if attr_subs { format!("{w} the app") } else { format!("{w} {{di-app}}") }),
            1 => (format!("{w} (C)"), if repl { format!("{w} ©") } else { format!("{w} (C)") }),
            2 => match missing {
              "drop" if attr_subs => (format!("{w} {{nope-x}}."), format!("{w} .")),
              "drop-line" if attr_subs => {
                src.push_str(&format!("<p>{{nope-x}}{w}</p>{}", r.pick_s(&["\n", "\r\n"])));
                continue;
              }
              _ => (format!("{w} {{nope-x}}"), format!("{w} {{nope-x}}")),
            },
            3 => (format!("*{w}* _x_"), format!("*{w}* _x_")),
            4 => {
              let dash = if h5 { "–" } else { "—\u{200b}" };
              (format!("{w}... a--b (TM)(R)--"), if repl { format!("{w}…\u{200b} a{dash}b ™®--") } else { format!("{w}... a--b (TM)(R)--") })
            }
            _ if r.chance(1, 2) => (format!("{w} {{the-job}}"), if attr_subs { format!("{w} the job's") } else { format!("{w} {{the-job}}") }),
            _ => (w.clone(), w),
          };
          if place == 0 {
            src.push_str(&format!("<meta name=\"di\" content=\"{s}\">"));
            dom[p].push(meta("di", &t));
          } else {
            if r.chance(1, 4) {
              // its lines stay lines
              src.push_str(&format!("<pre>{s}\nx\n(R) y</pre>"));
              dom[p].push(el("pre", &[], vec![txt(format!("{t}\nx\n{} y", if repl { "®" } else { "(R)" }))]));
            } else {
              src.push_str(&format!("<p class=\"di\">{s}</p>"));
              dom[p].push(el("p", &[("class", "di")], vec![txt(t)]));
            }
          }
          // a comment within says nothing
          src.push_str(r.pick_s(&["\n", "\n", "\r\n", "\n\n", "<!-- c -->\n", "<!--c--> <!-- -- => -->\n"]));
        }
        let q = ["", "-header", "-footer"][place];
        let file = if p == 0 { format!("mydoc-docinfo{q}.html") } else { format!("docinfo{q}.html") };
        let path = match dir {
          Some(d) => format!("/w/{d}/{file}"),
          None => format!("/w/{file}"),
        };
        files.insert(path, src.into_bytes());
      }
      if safe < SafeMode::Secure && standalone {
        let [private, shared] = dom;
        if on[place][1] {
          di[place].extend(shared);
        }
        if on[place][0] {
          di[place].extend(private);
        }
      }
    }
  }

  // source
  let mut s = String::new();
  let mut attrs = h.attrs.clone();
  let split1 = r.below(attrs.len() + 1);
  let rest = attrs.split_off(split1);
  let entry = |(k, v): &(String, Option<String>), alt: bool| match v {
    Some(v) if v.is_empty() => format!(":{k}:\n"),
    Some(v) => format!(":{k}: {v}\n"),
    None if alt => format!(":{k}!:\n"),
    None => format!(":!{k}:\n"),
  };
  let mut put = |s: &mut String, r: &mut Rng, v: &[(String, Option<String>)]| {
    for a in v {
      if r.chance(1, 12) {
        s.push_str(r.pick_s(&["// a comment\n", "////\na block\n:lang: xx\n////\n"]));
      }
      match &a.1 {
        // values may continue on the next line
        Some(v) if v.contains(' ') && r.chance(1, 4) => s.push_str(&format!(":{}: {}\n", a.0, v.replacen(' ', " \\\n  ", 1))),
        // and refer to other attributes
        Some(v) if v == "plain text" && r.chance(1, 2) => s.push_str(&format!(":{}: {{the-plain}} text\n", a.0)),
        _ => s.push_str(&entry(a, r.chance(1, 2))),
      }
    }
  };
  if titled {
    put(&mut s, r, &attrs);
    if !attrs.is_empty() && r.chance(1, 4) {
      s.push('\n');
    }
    s.push_str(&format!("{} {title_src}\n", r.pick_s(&["=", "=", "#"])));
    // entries may also stand between title and author line, or author and revision
    let cut = r.below(rest.len() + 1);
    let early = r.chance(1, 5) && author_line.is_some();
    let (a, b) = if early { rest.split_at(cut) } else { rest.split_at(0) };
    put(&mut s, r, a);
    if let Some(l) = &author_line {
      s.push_str(l);
      s.push('\n');
    }
    if let Some(l) = &rev_line {
      s.push_str(l);
      s.push('\n');
    }
    put(&mut s, r, b);
  } else {
    put(&mut s, r, &attrs);
    put(&mut s, r, &rest);
  }
  s.push('\n');

  // references
  for (i, a) in auths.iter().enumerate() {
    let n = i + 1;
    let mut set = |k: &str, v: Option<String>| {
      if let Some(v) = v {
        if i == 0 {
          h.vals.insert(k.to_string(), v.clone());
        }
        h.vals.insert(format!("{k}_{n}"), v);
      }
    };
    set("author", Some(a.full()));
    set("firstname", Some(a.first.clone()));
    set("middlename", a.middle.clone());
    set("lastname", a.last.clone());
    set("authorinitials", Some(a.initials()));
    set("email", a.email.clone());
  }
  if !auths.is_empty() {
    h.vals.insert("authors".into(), auths.iter().map(|a| a.full()).collect::<Vec<_>>().join(", "));
  }
  for (k, v) in [("revnumber", &revnumber), ("revdate", &revdate), ("revremark", &revremark)] {
    if let Some(v) = v {
      h.vals.insert(k.into(), v.clone());
    }
  }
  let mut refs = vec![];
  let mut body = String::new();
  for (k, v) in &h.vals {
    // replacements apply to the value of a reference, too
    if v.contains('\'') || v.contains('@') && k.starts_with("email_") {
      continue;
    }
    if r.chance(1, 3) {
      body.push_str(&format!("[#r-{k}]#{{{k}}}#\n"));
      refs.push((k.clone(), v.clone()));
    }
  }
  for k in ["revnumber", "middlename", "author_2", "lastname_1"] {
    if !h.vals.contains_key(k) && !h.attrs.iter().any(|a| a.0 == "attribute-missing") && r.chance(1, 6) {
      body.push_str(&format!("[#r-{k}]#{{{k}}}#\n"));
      refs.push((k.to_string(), format!("{{{k}}}")));
    }
  }
  if !body.is_empty() {
    s.push_str(&body);
    s.push('\n');
  }
  if toc.is_some() || r.chance(1, 2) {
    s.push_str("== Section\n\ntext\n");
  } else {
    s.push_str("text\n");
  }

  // the page
  let mut job = Job::new(s).be(if h5 { Be::H5 } else { Be::Dr }).attr("the-job", "the job's").safe(safe);
  job = job.attr("the-plain", "plain");
  job.attrs.extend(by_job);
  job.attrs.extend(doctype_attr);
  job.doctype = job_doctype;
  if standalone {
    job = job.standalone();
  }
  if with_docinfo {
    job = job.at(Src::Path("/w/mydoc.adoc".into())).files(files);
    job.base_dir = Some("/w".into());
  }
  let h1 = el("h1", &[], title_dom);
  let exp = if !standalone {
    if titled && show && !noheader { vec![h1] } else { vec![] }
  } else {
    let mut head = vec![
      el("meta", &[("charset", encoding.as_deref().unwrap_or("UTF-8"))], vec![]),
      el("meta", &[("http-equiv", "X-UA-Compatible"), ("content", "IE=edge")], vec![]),
      meta("viewport", "width=device-width, initial-scale=1.0"),
    ];
    if !reproducible {
      head.push(meta("generator", "Asciidork"));
    }
    for (k, v) in [("application-name", &app), ("description", &description), ("keywords", &keywords), ("copyright", &copyright)] {
      if let Some(v) = v {
        head.push(meta(k, v));
      }
    }
    match favicon.as_deref() {
      Some("") => head.push(el("link", &[("rel", "icon"), ("type", "image/x-icon"), ("href", "favicon.ico")], vec![])),
      Some(f) => {
        let t = format!("image/{}", f.rsplit('.').next().unwrap());
        head.push(el("link", &[("rel", "icon"), ("type", &t), ("href", f)], vec![]));
      }
      None => {}
    }
    if !auths.is_empty() {
      head.push(meta("author", &auths.iter().map(|a| a.full()).collect::<Vec<_>>().join(", ")));
    }
    let t = page_title.clone().or(titled.then(|| title_plain.clone())).unwrap_or("Untitled".into());
    head.push(el("title", &[], vec![txt(t)]));
    head.extend(di[0].iter().cloned());

    let mut details = vec![];
    let br = || el("br", &[], vec![]);
    for (i, a) in auths.iter().enumerate() {
      let n = if i == 0 { String::new() } else { (i + 1).to_string() };
      details.push(el("span", &[("class", "author"), ("id", &format!("author{n}"))], vec![txt(a.full())]));
      details.push(br());
      if let Some(e) = &a.email {
        details.push(el("span", &[("class", "email"), ("id", &format!("email{n}"))], vec![el("a", &[("href", &format!("mailto:{e}"))], vec![txt(e.clone())])]));
        if !h5 || i == 0 {
          details.push(br());
        }
      }
    }
    let lab = |s: &str| if s.is_empty() { String::new() } else { format!("{s} ") };
    if let Some(v) = &revnumber {
      let l = label.unwrap_or("").to_lowercase();
      let c = if revdate.is_some() { "," } else { "" };
      details.push(el("span", &[("id", "revnumber")], vec![txt(format!("{}{v}{c}", if l.is_empty() { " ".to_string() } else { lab(&l) }))]));
      if h5 && revdate.is_some() {
        details.push(txt(" "));
      }
    }
    if let Some(v) = &revdate {
      if h5 {
        details.push(el("time", &[("id", "revdate"), ("datetime", &iso(v))], vec![txt(v.clone())]));
      } else {
        details.push(el("span", &[("id", "revdate")], vec![txt(v.clone())]));
      }
    }
    if let Some(v) = &revremark {
      details.push(br());
      details.push(el("span", &[("id", "revremark")], vec![txt(v.clone())]));
    }
    let mut header = vec![];
    if titled && show {
      header.push(h1);
    }
    if !details.is_empty() {
      header.push(el("div", &[("class", "details")], details));
    }
    let style = maxw.as_ref().map(|w| format!("max-width: {w};"));
    let st: Vec<(&str, &str)> = style.iter().map(|s| ("style", s.as_str())).collect();
    let dr_div = |id: &str, kids: Vec<Node>| {
      let mut a = vec![("id", id)];
      a.extend(st.iter().cloned());
      el("div", &a, kids)
    };
    let mut kids = di[1].clone();
    if !noheader {
      kids.push(if h5 { el("header", &[], header) } else { dr_div("header", header) });
    }
    kids.push(if h5 { el("div", &[("id", "content")], vec![]) } else { dr_div("content", vec![]) });
    if !nofooter {
      let l = label.unwrap_or("");
      let t = revnumber.as_ref().map(|v| format!("{} {v}", l));
      kids.push(if h5 {
        el("footer", &[], vec![el("div", &[("id", "footer-text")], t.into_iter().map(txt).collect())])
      } else {
        dr_div("footer", t.map(|t| el("div", &[("id", "footer-text")], vec![txt(t), br()])).into_iter().collect())
      });
    }
    kids.extend(di[2].iter().cloned());
    let class = match toc {
      Some("left") => format!("{doctype} toc2 toc-left"),
      Some("right") => format!("{doctype} toc2 toc-right"),
      _ => doctype.to_string(),
    };
    let mut ba = vec![("class", class.as_str())];
    if let Some(c) = &css {
      ba.push(("id", c));
    }
    if h5 {
      ba.extend(st.iter().cloned());
    }
    let mut ha = vec![];
    if !nolang {
      ha.push(("lang", lang.as_deref().unwrap_or("en")));
    }
    vec![el("html", &ha, vec![el("head", &[], head), el("body", &ba, kids)])]
  };
  (job, exp, refs)
}

/// the date in ISO form, if it is one of the dates known to the reader of dates
fn iso(d: &str) -> String {
  match d {
    "October 31, 2021" => "2021-10-31".into(),
    "01/02/2003" => "2003-01-02".into(),
    _ => d.into(),
  }
}

/// the page of a document is its embedded conversion with a header, a content division and a footer
/// around it (footnotes come after the content)
fn wrapped(cx: &mut Cx) {
  let mut rng = cx.rng.clone();
  let r = &mut rng;
  let mut src = match r.below(3) {
    0 => crate::wild::wild(r),
    _ => match crate::props::preproc::any_doc(r, 3) {
      Some((_, s)) => s,
      None => return,
    },
  };
  // cells do not inherit notitle, so their titles are for pages only
  if r.chance(1, 2) && !src.lines().any(|l| l.starts_with(['=', '#'])) {
    // the document in a cell, or with one after it
    let cell = format!("|===\na|\n{}\n|===\n", src.replace("|===", "!===").replace('|', "!"));
    src = if r.chance(1, 2) { cell } else { format!("{src}\n\n{cell}") };
  }
  if r.chance(1, 2) {
    src = format!("= Title\n\n{src}");
  }
  if src.contains('|') && src.lines().skip(2).any(|l| l.starts_with("= ") || l.starts_with("# ")) {
    return;
  }
  if src.contains("header:") || src.contains("footer:") || src.contains("embedded") || src.contains("toc") || src.contains("title") {
    return;
  }
  let be = if r.chance(1, 2) { crate::conv::Be::Dr } else { crate::conv::Be::H5 };
  // (without it, the document title is for pages only)
  let mut emb = Job::new(src).be(be).attr("notitle", true);
  if r.chance(1, 8) {
    emb = emb.doctype(asciidork_core::DocType::Inline);
  } else if r.chance(1, 8) {
    emb = emb.doctype(asciidork_core::DocType::Book);
  }
  let mut page = emb.clone().standalone();
  for a in ["nofooter", "noheader"] {
    if r.chance(1, 5) {
      page = page.attr(a, true);
      emb = emb.attr(a, true);
    }
  }
  let (Run::Done(e), Run::Done(p)) = (conv::run(&emb), conv::run(&page)) else { return };
  let (Some(e), Some(p)) = (e.html, p.html) else { return };
  cx.nontrivial(&emb.src);
  cx.eval();
  cx.count("pages compared with embedded output");
  if emb.doctype == Some(asciidork_core::DocType::Inline) {
    if e != p {
      cx.fail("page: inline documents have no page", crate::props::preproc::first_diff(&e, &p), page.describe());
    }
    return;
  }
  const OPEN: &str = "<div id=\"content\">";
  let Some((_, rest)) = p.split_once("<body").and_then(|(_, b)| b.split_once(OPEN)) else {
    cx.fail("page: no content", p, page.describe());
    return;
  };
  let k = match be {
    crate::conv::Be::Dr => e.rfind("<div id=\"footnotes\">"),
    _ => e.rfind("<section class=\"footnotes\""),
  }
  .unwrap_or(e.len());
  let want = format!("{}</div>{}", &e[..k], &e[k..]);
  if !rest.starts_with(&want) {
    cx.fail("page: content differs from embedded output", crate::props::preproc::first_diff(&want, rest), page.describe());
    return;
  }
  let tail = &rest[want.len()..];
  let footer = if be == crate::conv::Be::Dr { "<div id=\"footer\">" } else { "<footer>" };
  if tail.matches(footer).count() + page.attrs.iter().filter(|a| a.0 == "nofooter").count() != 1 || !tail.ends_with("</body></html>") {
    cx.fail("page: end", tail.to_string(), page.describe());
  }
}
