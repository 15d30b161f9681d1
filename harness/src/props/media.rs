//! C31: images, video, audio and icons: the element a media macro stands for,
//! prescribed for both backends by an independent reading of its attributes.

use serde_json::json;

use crate::conv::{self, Be, Job, Run};
use crate::html::{self, El, Node};
use crate::model::{canon, diff, el, txt};
use crate::orch::*;
use crate::rng::Rng;
use asciidork_core::SafeMode;

pub struct Media;

/// attributes of a macro as written: positional then named
#[derive(Default, Clone)]
struct Attrs {
  pos: Vec<String>,
  named: Vec<(String, String)>,
  opts: Vec<&'static str>,
}

impl Attrs {
  fn get(&self, k: &str) -> Option<&str> {
    self.named.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
  }
  fn at(&self, i: usize) -> Option<&str> {
    self.pos.get(i).map(|s| s.as_str()).filter(|s| !s.is_empty())
  }
  fn either(&self, k: &str, i: usize) -> Option<&str> {
    self.get(k).or(self.at(i))
  }
  fn opt(&self, o: &str) -> bool {
    self.opts.contains(&o)
  }
  fn put(&mut self, k: &str, v: impl Into<String>) {
    self.named.push((k.into(), v.into()));
  }
  fn write(&self, r: &mut Rng) -> String {
    let mut v: Vec<String> = self
      .pos
      .iter()
      .map(|p| if p.contains(',') || (!p.is_empty() && r.chance(1, 8)) { format!("\"{p}\"") } else { p.clone() })
      .collect();
    let mut n: Vec<String> = self
      .named
      .iter()
      .map(|(k, v)| if v.contains([',', ' ']) || v.is_empty() || r.chance(1, 3) { format!("{k}=\"{v}\"") } else { format!("{k}={v}") })
      .collect();
    if !self.opts.is_empty() {
      if r.chance(1, 3) {
        n.extend(self.opts.iter().map(|o| format!("%{o}")).map(|o| format!("opts={}", &o[1..])).take(usize::from(self.opts.len() == 1)));
        if self.opts.len() > 1 {
          n.push(format!("options=\"{}\"", self.opts.join(",")));
        }
      } else {
        n.push(format!("opts=\"{}\"", self.opts.join(",")));
      }
    }
    r.shuffle(&mut n);
    v.extend(n);
    v.join(if r.chance(1, 4) { ", " } else { "," })
  }
}

struct Env {
  be: Be,
  imagesdir: Option<&'static str>,
  iconsdir: Option<&'static str>,
  icontype: Option<&'static str>,
  icons: Option<&'static str>,
  deflink: Option<&'static str>,
  secure: bool,
  figs: usize,
  n: usize,
}

impl Env {
  /// a path of the document, seen from its images folder
  fn path(&self, target: &str) -> String {
    let own = target.starts_with('/') || target.contains("://");
    let p = match self.imagesdir {
      Some(d) if !own && !d.is_empty() => format!("{}/{target}", d.trim_end_matches('/')),
      _ => target.to_string(),
    };
    p.replace(' ', "%20")
  }
  fn icon_path(&self, name: &str, ext: bool) -> String {
    let dir = match (self.iconsdir, self.imagesdir) {
      (Some(d), _) if !d.is_empty() => d.to_string(),
      (_, Some(d)) if !d.is_empty() => format!("{}/icons", d.trim_end_matches('/')),
      _ => "./images/icons".to_string(),
    };
    let ext = if !ext {
      String::new()
    } else {
      format!(".{}", match (self.icontype, self.icons) {
        (Some(t), _) => t,
        (_, Some(i)) if !["", "font", "image"].contains(&i) => i,
        _ => "png",
      })
    };
    format!("{dir}/{name}{ext}")
  }
  fn word(&mut self) -> String {
    self.n += 1;
    format!("word{}", self.n)
  }
}

fn e(tag: &str, attrs: Vec<(&str, String)>, kids: Vec<Node>) -> Node {
  Node::El(El { tag: tag.into(), attrs: attrs.into_iter().map(|(k, v)| (k.to_string(), v)).collect(), kids })
}

/// window, noopener, nofollow
fn constraints(a: &Attrs) -> Vec<(&'static str, String)> {
  let mut v = vec![];
  let w = a.get("window");
  if let Some(w) = w {
    v.push(("target", w.to_string()));
  }
  let mut rel = vec![];
  if w == Some("_blank") || (w.is_some() && a.opt("noopener")) {
    rel.push("noopener");
  }
  if a.opt("nofollow") {
    rel.push("nofollow");
  }
  if !rel.is_empty() {
    v.push(("rel", rel.join(" ")));
  }
  v
}

fn stem(target: &str) -> String {
  let b = target.rsplit('/').next().unwrap();
  b.rsplit_once('.').map_or(b, |x| x.0).replace(['-', '_'], " ")
}

fn img(env: &Env, target: &str, a: &Attrs, inline: bool) -> Node {
  let svg = a.get("format").or(target.rsplit_once('.').map(|x| x.1)) == Some("svg");
  if svg && a.opt("interactive") && !env.secure {
    let mut at = vec![("type", "image/svg+xml".to_string()), ("data", env.path(target))];
    for (i, k) in ["width", "height"].into_iter().enumerate() {
      if let Some(v) = a.either(k, i + 1) {
        at.push((k, v.into()));
      }
    }
    let alt = a.either("alt", 0);
    let kids = if let Some(f) = a.get("fallback") {
      let mut fa = vec![("src", env.path(f))];
      if let Some(alt) = alt {
        fa.push(("alt", alt.into()));
      }
      vec![e("img", fa, vec![])]
    } else if let Some(alt) = alt {
      vec![el("span", &[("class", "alt")], vec![txt(alt)])]
    } else {
      vec![]
    };
    return e("object", at, kids);
  }
  let mut at = vec![("src", env.path(target)), ("alt", a.either("alt", 0).map_or_else(|| stem(target), |s| s.into()))];
  for (i, k) in ["width", "height"].into_iter().enumerate() {
    if let Some(v) = a.either(k, i + 1) {
      at.push((k, v.into()));
    }
  }
  if inline {
    if let Some(t) = a.get("title") {
      at.push(("title", t.into()));
    }
  }
  if env.be == Be::H5 {
    if a.get("loading") == Some("lazy") {
      at.push(("loading", "lazy".into()));
    }
    if inline {
      if let Some(s) = style(a) {
        at.push(("style", s));
      }
      if let Some(r) = a.get("role") {
        at.push(("class", r.into()));
      }
    }
  }
  e("img", at, vec![])
}

fn style(a: &Attrs) -> Option<String> {
  let mut v = vec![];
  if let Some(f) = a.get("float") {
    v.push(format!("float: {f}"));
  }
  if let Some(x) = a.get("align") {
    v.push(format!("text-align: {x}"));
  }
  (!v.is_empty()).then(|| v.join("; "))
}

fn classes(base: &str, a: &Attrs) -> String {
  let mut s = base.to_string();
  for (k, p) in [("float", ""), ("align", "text-"), ("role", "")] {
    if let Some(v) = a.get(k) {
      s.push_str(&format!(" {p}{v}"));
    }
  }
  s
}

const ALTS: &[&str] = &["Alt text", "a & b", "one <two>", "x, y", "ünï", "café", "at https://example.org/y now", "to me@example.org", "a [b] c", "a [b], c"];
const NAMES: &[&str] = &["a", "my-pic", "some_pic_name", "v1.2-shot", "sub/dir/pic", "pic two", "/abs/pic", "https://example.org/p/pic", "ünï"];

fn dims(r: &mut Rng, a: &mut Attrs, first: Option<String>) {
  let w = r.chance(1, 3).then(|| format!("{}", r.range(1, 900)));
  let h = r.chance(1, 4).then(|| format!("{}", r.range(1, 900)));
  let mut slot = [first, None, None];
  for (i, (k, v)) in [("width", w), ("height", h)].into_iter().enumerate() {
    let Some(v) = v else { continue };
    if r.chance(1, 2) {
      slot[i + 1] = Some(v);
      if r.chance(1, 8) {
        // the named one decides
        a.put(k, format!("{}", r.range(1000, 2000)));
      }
    } else {
      a.put(k, v);
    }
  }
  let n = (0..3).rev().find(|i| slot[*i].is_some()).map_or(0, |i| i + 1);
  a.pos = slot.into_iter().take(n).map(|s| s.unwrap_or_default()).collect();
}

fn image_attrs(r: &mut Rng, env: &Env, inline: bool) -> (String, Attrs) {
  let mut a = Attrs::default();
  let svg = r.chance(1, 5);
  let target = format!("{}.{}", r.pick(NAMES), if svg { "svg" } else { *r.pick(&["png", "jpg"]) });
  let alt = r.chance(2, 3).then(|| r.pick(ALTS).to_string());
  let (first, named) = if r.chance(2, 3) { (alt, None) } else { (None, alt) };
  let first = first.or(r.chance(1, 8).then(String::new));
  dims(r, &mut a, first);
  if let Some(x) = named {
    a.put("alt", x);
  }
  if r.chance(1, 3) {
    a.put("link", r.pick_s(&["self", "https://example.org/x?a=1", "other.html", "#top"]));
    if r.chance(1, 2) {
      a.put("window", r.pick_s(&["_blank", "_top", "help"]));
      if r.chance(1, 3) {
        a.opts.push("noopener");
      }
    }
    if r.chance(1, 3) {
      a.opts.push("nofollow");
    }
  }
  if svg && r.chance(2, 3) {
    a.opts.push("interactive");
    if r.chance(1, 2) {
      a.put("fallback", "fall back.png");
    }
  }
  if r.chance(1, 6) {
    a.put("float", r.pick_s(&["left", "right"]));
  }
  if r.chance(1, 6) {
    a.put("align", r.pick_s(&["left", "center", "right"]));
  }
  if r.chance(1, 5) {
    a.put("role", r.pick_s(&["thumb", "thumb related"]));
  }
  if r.chance(1, 6) && !a.opt("interactive") {
    a.put("loading", r.pick_s(&["lazy", "eager"]));
  }
  if env.be == Be::H5 && inline && a.opt("interactive") {
    // style and class of the img are unclear for an object
    a.named.retain(|(k, _)| !["float", "align", "role"].contains(&k.as_str()));
  }
  (target, a)
}

fn link_of(env: &Env, target: &str, a: &Attrs, block: bool, inner: Node) -> Node {
  let dflt = env.deflink.filter(|_| block && env.be == Be::H5);
  let Some(l) = a.get("link").or(dflt) else { return inner };
  if l == "none" {
    return inner;
  }
  let own = l == "self";
  let href = if own { env.path(target) } else { l.to_string() };
  let mut at = vec![("class", "image".to_string()), ("href", href)];
  at.extend(constraints(a));
  if own && block && env.be == Be::H5 {
    at[0].1 = "bare image".into();
    at.push(("title", "Open the image in full size".into()));
    at.push(("aria-label", "Open the image in full size".into()));
  }
  e("a", at, vec![inner])
}

fn inline_image(r: &mut Rng, env: &mut Env) -> (String, Node) {
  let (target, mut a) = image_attrs(r, env, true);
  if r.chance(1, 5) {
    a.put("title", "Some title");
  }
  let src = format!("image:{target}[{}]", a.write(r).replace(']', "\\]"));
  let inner = link_of(env, &target, &a, false, img(env, &target, &a, true));
  let node = if env.be == Be::Dr { e("span", vec![("class", classes("image", &a))], vec![inner]) } else { inner };
  (src, node)
}

fn icon(r: &mut Rng, env: &mut Env) -> (String, Node) {
  let name = r.pick_s(&["heart", "file-o", "tags", "my_icon"]);
  let mut a = Attrs::default();
  if r.chance(1, 3) {
    a.pos.push(r.pick_s(&["2x", "lg", "fw"]).into());
  } else if r.chance(1, 6) {
    a.put("size", "4x");
  }
  if r.chance(1, 3) {
    if r.chance(1, 2) {
      a.put("flip", r.pick_s(&["vertical", "horizontal"]));
    } else {
      a.put("rotate", r.pick_s(&["90", "180"]));
    }
  }
  if r.chance(1, 4) {
    a.put("alt", r.pick_s(ALTS));
  }
  if r.chance(1, 4) {
    a.put("width", "24");
  }
  if r.chance(1, 4) {
    a.put("title", r.pick_s(&["Title text", "a & b", "one <two>"]));
  }
  if r.chance(1, 4) {
    a.put("role", r.pick_s(&["red", "red big"]));
  }
  if r.chance(1, 4) {
    a.put("link", r.pick_s(&["https://example.org/", "x.html"]));
    if r.chance(1, 2) {
      a.put("window", r.pick_s(&["_blank", "help"]));
      if r.chance(1, 3) {
        a.opts.push("noopener");
      }
    }
    if r.chance(1, 3) {
      a.opts.push("nofollow");
    }
  }
  let src = format!("icon:{name}[{}]", a.write(r).replace(']', "\\]"));
  let role = a.get("role").map_or(String::new(), |r| format!(" {r}"));
  let h5 = env.be == Be::H5;
  let alt = a.get("alt").unwrap_or(name);
  let title = a.get("title").map(|t| ("title", t.to_string()));
  let inner = match env.icons {
    None if h5 => {
      let mut at = vec![("class", format!("icon{role}"))];
      at.extend(title);
      e("b", at, vec![txt(format!("[{alt}]"))])
    }
    None => txt(format!("[{alt}]")),
    Some("font") => {
      let mut c = format!("fa fa-{name}");
      if let Some(s) = a.either("size", 0) {
        c.push_str(&format!(" fa-{s}"));
      }
      if let Some(f) = a.get("flip") {
        c.push_str(&format!(" fa-flip-{f}"));
      }
      if let Some(f) = a.get("rotate") {
        c.push_str(&format!(" fa-rotate-{f}"));
      }
      if h5 {
        c.push_str(&role);
      }
      let mut at = vec![("class", c)];
      at.extend(title);
      e("i", at, vec![])
    }
    Some(_) => {
      let mut at = vec![("src", env.icon_path(name, true)), ("alt", alt.to_string())];
      if let Some(w) = a.get("width") {
        at.push(("width", w.into()));
      }
      at.extend(title);
      if h5 {
        at.push(("class", format!("icon{role}")));
      }
      e("img", at, vec![])
    }
  };
  let inner = match a.get("link") {
    Some(l) => {
      let mut at = vec![("class", "image".to_string()), ("href", l.to_string())];
      at.extend(constraints(&a));
      e("a", at, vec![inner])
    }
    None => inner,
  };
  (src, if h5 { inner } else { e("span", vec![("class", format!("icon{role}"))], vec![inner]) })
}

/// `src`, `figure`'s or `div`'s children around `content`
fn wrap(env: &Env, base: [&str; 2], id: Option<&str>, a: &Attrs, place: bool, title: Option<String>, below: bool, content: Node) -> Node {
  let mut at = vec![];
  if let Some(id) = id {
    at.push(("id", id.to_string()));
  }
  if env.be == Be::Dr {
    let mut only = a.clone();
    if !place {
      only.named.retain(|(k, _)| k == "role");
    }
    at.push(("class", classes(base[0], &only)));
    let t = title.map(|t| el("div", &[("class", "title")], vec![txt(t)]));
    let c = el("div", &[("class", "content")], vec![content]);
    let kids = if below { [Some(c), t] } else { [t, Some(c)] };
    e("div", at, kids.into_iter().flatten().collect())
  } else {
    let role = a.get("role").map_or(String::new(), |r| format!(" {r}"));
    at.push(("class", format!("{}{role}", base[1])));
    if let (true, Some(s)) = (base[1] == "image-block", style(a)) {
      at.push(("style", s));
    }
    let tag = if title.is_some() { "figure" } else { "div" };
    let t = title.map(|t| el("figcaption", &[], vec![txt(t)]));
    e(tag, at, [Some(content), t].into_iter().flatten().collect())
  }
}

fn block_image(r: &mut Rng, env: &mut Env) -> (String, Node) {
  let (target, mut a) = image_attrs(r, env, false);
  if env.deflink.is_some() && r.chance(1, 3) && a.get("link").is_none() {
    a.put("link", "none");
    if env.be == Be::Dr {
      a.named.pop();
    }
  }
  let mut pre = String::new();
  let title = r.chance(1, 3).then(|| env.word());
  let mut macro_a = a.clone();
  if let Some(t) = &title {
    if r.chance(1, 2) {
      pre.push_str(&format!(".{t}\n"));
    } else {
      macro_a.put("title", t.clone());
    }
  }
  let id = r.chance(1, 4).then(|| format!("id{}", env.word()));
  if let Some(id) = &id {
    if r.chance(1, 2) {
      pre.push_str(&format!("[#{id}]\n"));
    } else {
      macro_a.put("id", id.clone());
    }
  }
  // a link may stand above the block
  if macro_a.get("link").is_some() && r.chance(1, 3) {
    pre.push_str(&format!("[link={}]\n", macro_a.get("link").unwrap()));
    macro_a.named.retain(|(k, _)| k != "link");
  }
  let src = format!("{pre}image::{target}[{}]\n", macro_a.write(r));
  let content = link_of(env, &target, &a, true, img(env, &target, &a, false));
  let title = title.map(|t| {
    env.figs += 1;
    format!("Figure {}. {t}", env.figs)
  });
  (src, wrap(env, ["imageblock", "image-block"], id.as_deref(), &a, true, title, true, content))
}

/// id, roles and title, above or within the macro
fn around(r: &mut Rng, env: &mut Env, a: &mut Attrs) -> (String, Option<String>, Option<String>) {
  let mut pre = String::new();
  let title = r.chance(1, 3).then(|| env.word());
  if let Some(t) = &title {
    pre.push_str(&format!(".{t}\n"));
  }
  let id = r.chance(1, 4).then(|| format!("id{}", env.word()));
  let role = r.chance(1, 4).then_some("wide");
  if r.chance(1, 2) {
    if id.is_some() || role.is_some() {
      pre.push_str(&format!("[{}{}]\n", id.as_ref().map_or(String::new(), |i| format!("#{i}")), role.map_or(String::new(), |i| format!(".{i}"))));
    }
  } else {
    if let Some(i) = &id {
      a.put("id", i.clone());
    }
    if let Some(i) = role {
      a.put("role", i);
    }
  }
  (pre, id, title)
}

fn times(r: &mut Rng, a: &mut Attrs) -> String {
  let s = r.chance(1, 4).then(|| r.range(0, 300).to_string());
  let t = r.chance(1, 4).then(|| r.range(301, 900).to_string());
  if let Some(s) = &s {
    a.put("start", s.clone());
  }
  if let Some(t) = &t {
    a.put("end", t.clone());
  }
  match (s, t) {
    (None, None) => String::new(),
    (Some(s), None) => format!("#t={s}"),
    (None, Some(t)) => format!("#t=,{t}"),
    (Some(s), Some(t)) => format!("#t={s},{t}"),
  }
}

fn some_opts(r: &mut Rng, a: &mut Attrs, all: &[&'static str]) {
  for o in all {
    if r.chance(1, 4) {
      a.opts.push(o);
    }
  }
  r.shuffle(&mut a.opts);
}

fn with_role(pre: &str, a: &Attrs) -> Attrs {
  let mut b = a.clone();
  if pre.contains(".wide]") {
    b.put("role", "wide");
  }
  b
}

fn audio(r: &mut Rng, env: &mut Env) -> (String, Node) {
  let mut a = Attrs::default();
  let target = format!("{}.{}", r.pick(NAMES), r.pick(&["mp3", "ogg"]));
  let t = times(r, &mut a);
  some_opts(r, &mut a, &["autoplay", "loop", "nocontrols"]);
  let (pre, id, title) = around(r, env, &mut a);
  let src = format!("{pre}audio::{target}[{}]\n", a.write(r));
  let mut at = vec![("src", format!("{}{t}", env.path(&target)))];
  for o in ["autoplay", "loop"] {
    if a.opt(o) {
      at.push((o, String::new()));
    }
  }
  if !a.opt("nocontrols") {
    at.push(("controls", String::new()));
  }
  let c = e("audio", at, vec![txt("Your browser does not support the audio tag.")]);
  let b = with_role(&pre, &a);
  (src, wrap(env, ["audioblock", "audio-block"], id.as_deref(), &b, false, title, false, c))
}

fn native(r: &mut Rng, env: &mut Env) -> (String, Node) {
  let mut a = Attrs::default();
  let target = format!("{}.{}", r.pick(NAMES), r.pick(&["mp4", "webm"]));
  let t = times(r, &mut a);
  let poster = r.chance(1, 3).then(|| format!("{}.png", r.pick(NAMES)));
  let (first, named) = match r.below(5) {
    0 | 1 => (poster.clone(), None),
    2 | 3 => (None, poster.clone()),
    // both: the named one is meant
    _ => (poster.clone().map(|_| format!("{}.jpg", r.pick(NAMES))), poster.clone()),
  };
  dims(r, &mut a, first);
  if let Some(p) = named {
    a.put("poster", p);
  }
  some_opts(r, &mut a, &["autoplay", "loop", "nocontrols", "muted"]);
  if r.chance(1, 4) {
    a.put("preload", r.pick_s(&["none", "metadata", "auto"]));
  }
  let mut at = vec![("src", format!("{}{t}", env.path(&target)))];
  for (i, k) in ["width", "height"].into_iter().enumerate() {
    if let Some(v) = a.either(k, i + 1) {
      at.push((k, v.into()));
    }
  }
  if let Some(p) = &poster {
    at.push(("poster", env.path(p)));
  }
  for o in ["autoplay", "muted", "loop"] {
    if a.opt(o) {
      at.push((o, String::new()));
    }
  }
  if let Some(p) = a.get("preload") {
    at.push(("preload", p.into()));
  }
  if !a.opt("nocontrols") {
    at.push(("controls", String::new()));
  }
  let c = e("video", at, vec![txt("Your browser does not support the video tag.")]);
  video_around(r, env, a, &target, c)
}

fn video_around(r: &mut Rng, env: &mut Env, mut a: Attrs, target: &str, c: Node) -> (String, Node) {
  if r.chance(1, 6) {
    a.put("float", r.pick_s(&["left", "right"]));
  }
  if r.chance(1, 6) {
    a.put("align", r.pick_s(&["left", "center", "right"]));
  }
  let (pre, id, title) = around(r, env, &mut a);
  let src = format!("{pre}video::{target}[{}]\n", a.write(r));
  let b = with_role(&pre, &a);
  (src, wrap(env, ["videoblock", "video-block"], id.as_deref(), &b, true, title, false, c))
}

fn hosted(r: &mut Rng, env: &mut Env) -> (String, Node) {
  let mut a = Attrs::default();
  let who = r.pick_s(&["youtube", "vimeo", "wistia"]);
  dims(r, &mut a, Some(who.into()));
  let id = r.pick_s(&["dQw4w9WgXcQ", "67480300", "be5gtsbaco"]);
  let mut target = id.to_string();
  let mut q: Vec<String> = vec![];
  let mut frag = String::new();
  let start = r.chance(1, 3).then(|| r.range(1, 500));
  if let Some(s) = start {
    a.put("start", s.to_string());
  }
  some_opts(r, &mut a, match who {
    "youtube" => &["autoplay", "muted", "loop", "modest", "related", "nocontrols", "nofullscreen"],
    "vimeo" => &["autoplay", "muted", "loop", "nofullscreen"],
    _ => &["autoplay", "muted", "nofullscreen"],
  });
  let base = match who {
    "youtube" => {
      for (o, p) in [("autoplay", "autoplay=1"), ("muted", "mute=1"), ("loop", "loop=1"), ("modest", "modestbranding=1"), ("nocontrols", "controls=0"), ("nofullscreen", "fs=0")] {
        if a.opt(o) {
          q.push(p.into());
        }
      }
      q.push(format!("rel={}", i32::from(a.opt("related"))));
      for (k, p, v) in [("theme", "theme", "light"), ("lang", "hl", "fr"), ("end", "end", "900")] {
        if r.chance(1, 5) {
          a.put(k, v);
          q.push(format!("{p}={v}"));
        }
      }
      if let Some(s) = start {
        q.push(format!("start={s}"));
      }
      match r.below(7) {
        0 => {
          target.push_str("/PLabc");
          q.push("list=PLabc".into());
          if r.chance(1, 3) {
            a.put("list", "PLother");
          }
        }
        1 => {
          target.push_str(",idtwo,idthree");
          q.push(format!("playlist={id},idtwo,idthree"));
        }
        2 => {
          a.put("playlist", "idtwo,idthree");
          q.push(format!("playlist={id},idtwo,idthree"));
        }
        3 => {
          a.put("list", "PLdef");
          q.push("list=PLdef".into());
        }
        _ => {
          if a.opt("loop") {
            q.push(format!("playlist={id}"));
          }
        }
      }
      "https://www.youtube.com/embed/"
    }
    "vimeo" => {
      for (o, p) in [("autoplay", "autoplay=1"), ("muted", "muted=1"), ("loop", "loop=1")] {
        if a.opt(o) {
          q.push(p.into());
        }
      }
      match r.below(4) {
        0 => {
          target.push_str("/abc123");
          q.push("h=abc123".into());
        }
        1 => {
          a.put("hash", "def456");
          q.push("h=def456".into());
        }
        _ => {}
      }
      if let Some(s) = start {
        frag = format!("#at={s}");
      }
      "https://player.vimeo.com/video/"
    }
    _ => {
      for (o, p) in [("autoplay", "autoPlay=true"), ("muted", "muted=true")] {
        if a.opt(o) {
          q.push(p.into());
        }
      }
      match r.below(3) {
        0 => {
          a.opts.push("loop");
          q.push("endVideoBehavior=loop".into());
        }
        1 => {
          a.opts.push("reset");
          q.push("endVideoBehavior=reset".into());
        }
        _ => {}
      }
      if let Some(s) = start {
        q.push(format!("time={s}"));
      }
      "https://fast.wistia.com/embed/iframe/"
    }
  };
  q.sort();
  let mut url = format!("{base}{id}");
  if !q.is_empty() {
    url.push_str(&format!("?{}", q.join("&")));
  }
  url.push_str(&frag);
  let mut at = vec![];
  for (i, k) in ["width", "height"].into_iter().enumerate() {
    if let Some(v) = a.either(k, i + 1) {
      at.push((k, v.into()));
    }
  }
  at.push(("src", url));
  at.push(("frameborder", "0".into()));
  if !a.opt("nofullscreen") {
    at.push(("allowfullscreen", String::new()));
  }
  if who == "wistia" {
    at.push(("class", "wistia_embed".into()));
    at.push(("name", "wistia_embed".into()));
  }
  video_around(r, env, a, &target, e("iframe", at, vec![]))
}

fn admonition(r: &mut Rng, env: &mut Env) -> (String, Node) {
  let (k, label) = *r.pick(&[("note", "Note"), ("tip", "Tip"), ("important", "Important"), ("warning", "Warning"), ("caution", "Caution")]);
  let custom = (env.icons.is_some() && r.chance(1, 3)).then(|| r.pick_s(&["own", "own.svg"]));
  let w = env.word();
  let mut src = String::new();
  if let Some(c) = custom {
    src.push_str(&format!("[icon={c}]\n"));
  }
  src.push_str(&format!("{}: {w}\n", k.to_uppercase()));
  if env.be == Be::H5 {
    let (tag, role) = match k {
      "note" => ("aside", "note"),
      "tip" => ("aside", "doc-tip"),
      _ => ("section", "doc-notice"),
    };
    let h = el("h6", &[("class", "block-title label-only")], vec![el("span", &[("class", "title-label")], vec![txt(format!("{label}: "))])]);
    let node = e(tag, vec![("class", format!("admonition-block {k}")), ("role", role.into())], vec![h, el("p", &[], vec![txt(w)])]);
    return (src, node);
  }
  let ic = match (env.icons, custom) {
    (_, Some(c)) => e("img", vec![("src", env.icon_path(c, !c.contains('.'))), ("alt", label.into())], vec![]),
    (None, _) => el("div", &[("class", "title")], vec![txt(label)]),
    (Some("font"), _) => e("i", vec![("class", format!("fa icon-{k}")), ("title", label.into())], vec![]),
    _ => e("img", vec![("src", env.icon_path(k, true)), ("alt", label.into())], vec![]),
  };
  let row = el("tr", &[], vec![el("td", &[("class", "icon")], vec![ic]), el("td", &[("class", "content")], vec![txt(w)])]);
  (src, e("div", vec![("class", format!("admonitionblock {k}"))], vec![el("table", &[], vec![row])]))
}

/// what the order of words in a value leaves open
fn loosen(nodes: &mut Vec<Node>) {
  for n in nodes {
    let Node::El(e) = n else { continue };
    let aria = e.attr("aria-label").is_some();
    if e.tag == "a" && e.has_class("image") && !aria {
      // the tool tip of an image may show on its link, too
      e.attrs.retain(|(k, _)| k != "title");
    }
    let iframe = e.tag == "iframe";
    for (k, v) in e.attrs.iter_mut() {
      if k == "style" {
        let mut d: Vec<&str> = v.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()).collect();
        d.sort();
        *v = d.join("; ");
      }
      if k == "src" && iframe {
        let (rest, frag) = v.split_once('#').map(|(a, b)| (a, format!("#{b}"))).unwrap_or((v.as_str(), String::new()));
        let (base, q) = rest.split_once('?').map(|(a, b)| (a, Some(b))).unwrap_or((rest, None));
        let mut u = base.to_string();
        if let Some(q) = q {
          let mut ps: Vec<&str> = q.split('&').collect();
          ps.sort();
          u.push_str(&format!("?{}", ps.join("&")));
        }
        *v = u + &frag;
      }
    }
    loosen(&mut e.kids);
  }
}

impl Prop for Media {
  fn id(&self) -> &'static str {
    "C31"
  }
  fn rule(&self) -> &'static str {
    "documents of 1-4 media macros (block and inline images, audio, video files, hosted videos, icons, admonition icons) with generated attributes, positional or named, above the block or in the macro, under generated imagesdir, iconsdir, icons, icontype and safe modes, in both backends; DOM compared with the one an independent reading of the attributes prescribes"
  }
  fn cases(&self, tier: Tier) -> u64 {
    match tier {
      Tier::Quick => 200_000,
      Tier::Thorough => 2_000_000,
    }
  }
  fn assumptions(&self) -> Vec<String> {
    vec![
      "parameters of a hosted video's address, words of class and declarations of style are compared as sets".into(),
      "the tool tip of a linked image may show on the link, too".into(),
    ]
  }
  fn run(&self, cx: &mut Cx) {
    let mut r = cx.rng.clone();
    let be = if r.chance(1, 2) { Be::Dr } else { Be::H5 };
    let safe = *r.pick(&[SafeMode::Safe, SafeMode::Server, SafeMode::Unsafe, SafeMode::Secure]);
    let secure = safe == SafeMode::Secure;
    let mut env = Env {
      be,
      imagesdir: *r.pick(&[None, None, Some("img"), Some("img/"), Some("a/b"), Some("https://example.org/i"), Some("/abs/i"), Some("")]),
      iconsdir: *r.pick(&[None, None, Some("icons"), Some("/x/icons")]),
      icontype: *r.pick(&[None, None, Some("svg"), Some("gif")]),
      icons: *r.pick(&[None, Some(""), Some("image"), Some("font"), Some("svg")]),
      deflink: *r.pick(&[None, None, None, Some("self")]),
      secure,
      figs: 0,
      n: 0,
    };
    let mut job = Job::new("").be(be).safe(safe);
    let mut head = String::new();
    for (k, v) in [("imagesdir", env.imagesdir), ("iconsdir", env.iconsdir), ("icontype", env.icontype), ("icons", env.icons), ("html5s-image-default-link", env.deflink)] {
      let Some(v) = v else { continue };
      // what a document may set in secure mode is not the matter here
      if secure || r.chance(1, 3) {
        job = job.attr(k, v);
      } else if v.is_empty() {
        head.push_str(&format!(":{k}:\n"));
      } else {
        head.push_str(&format!(":{k}: {v}\n"));
      }
    }
    let mut src = head;
    let mut want = vec![];
    for _ in 0..r.range(1, 4) {
      src.push('\n');
      let (s, n) = match r.below(9) {
        0 | 1 => {
          cx.count("block images");
          block_image(&mut r, &mut env)
        }
        2 => {
          cx.count("audio");
          audio(&mut r, &mut env)
        }
        3 => {
          cx.count("video files");
          native(&mut r, &mut env)
        }
        4 | 5 => {
          cx.count("hosted videos");
          hosted(&mut r, &mut env)
        }
        6 => {
          cx.count("admonition icons");
          admonition(&mut r, &mut env)
        }
        _ => {
          let mut s = env.word();
          let mut kids = vec![txt(s.clone())];
          for _ in 0..r.range(1, 3) {
            let (a, n) = if r.chance(1, 2) {
              cx.count("inline images");
              inline_image(&mut r, &mut env)
            } else {
              cx.count("icons");
              icon(&mut r, &mut env)
            };
            let w = env.word();
            s.push_str(&format!(" {a} {w}"));
            kids.extend([txt(" "), n, txt(format!(" {w}"))]);
          }
          s.push('\n');
          let p = el("p", &[], kids);
          (s, if be == Be::Dr { el("div", &[("class", "paragraph")], vec![p]) } else { p })
        }
      };
      src.push_str(&s);
      want.push(n);
    }
    cx.nontrivial(&src);
    job.src = src;
    cx.eval();
    cx.count(if be == Be::Dr { "asciidoctor-style output" } else { "html5s output" });
    match conv::run(&job) {
      Run::Panic { msg, loc } => cx.fail(format!("panic {loc}"), msg, job.describe()),
      Run::Done(d) => {
        if let Some(w) = d.diags.first() {
          cx.fail(format!("diagnostic: {}", w.message), format!("{w:?}"), job.describe());
          return;
        }
        let h = d.html.unwrap_or_default();
        match html::parse(&h) {
          Err(m) => cx.fail("malformed html", format!("{m}\n{h}"), job.describe()),
          Ok(mut n) => {
            loosen(&mut n);
            loosen(&mut want);
            if let Some((path, what)) = diff(&canon(&want), &canon(&n)) {
              let tail: String = path.rsplit('/').take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/");
              cx.fail(format!("dom differs at {tail}"), format!("at {path}\n {what}\n{h}"), job.describe());
            }
          }
        }
      }
    }
    cx.sample(|| json!(job.src));
  }
}
