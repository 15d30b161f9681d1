//! A strict HTML reader for the converter's output: every complaint it makes is
//! a well-formedness error (the converter emits a small, regular HTML dialect).

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
  El(El),
  Text(String),
  Comment(String),
}

#[derive(Debug, Clone, PartialEq, Default)]
pub struct El {
  pub tag: String,
  pub attrs: Vec<(String, String)>,
  pub kids: Vec<Node>,
}

const VOID: &[&str] = &[
  "br", "hr", "img", "input", "col", "meta", "link", "area", "base", "source", "track", "wbr",
];

pub fn is_void(t: &str) -> bool {
  VOID.contains(&t)
}

fn name_ok(s: &str) -> bool {
  !s.is_empty()
    && s.as_bytes()[0].is_ascii_alphabetic()
    && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b':' || b == b'_')
}

/// Decodes character references; Err on a bare or malformed `&`.
pub fn decode(s: &str) -> Result<String, String> {
  let mut out = String::with_capacity(s.len());
  let mut rest = s;
  while let Some(p) = rest.find('&') {
    out.push_str(&rest[..p]);
    let tail = &rest[p..];
    let Some(semi) = tail.find(';') else {
      return Err(format!("bare ampersand at `{}`", clip(tail, 30)));
    };
    let body = &tail[1..semi];
    let ch = if let Some(hex) = body.strip_prefix("#x").or(body.strip_prefix("#X")) {
      u32::from_str_radix(hex, 16).ok().map(|c| char::from_u32(c).unwrap_or(char::REPLACEMENT_CHARACTER))
    } else if let Some(dec) = body.strip_prefix('#') {
      if dec.bytes().all(|b| b.is_ascii_digit()) {
        dec.parse::<u32>().ok().map(|c| char::from_u32(c).unwrap_or(char::REPLACEMENT_CHARACTER))
      } else {
        None
      }
    } else {
      match body {
        "amp" => Some('&'),
        "lt" => Some('<'),
        "gt" => Some('>'),
        "quot" => Some('"'),
        "apos" => Some('\''),
        "nbsp" => Some('\u{a0}'),
        b if b.len() <= 99
          && b.len() >= 2
          && b.bytes().all(|b| b.is_ascii_alphanumeric())
          && b.as_bytes()[0].is_ascii_alphabetic() =>
        {
          Some('\u{fffc}')
        }
        _ => None,
      }
    };
    match ch {
      Some(c) => out.push(c),
      None => return Err(format!("bad character reference `{}`", clip(tail, 30))),
    }
    rest = &tail[semi + 1..];
  }
  out.push_str(rest);
  Ok(out)
}

pub fn clip(s: &str, n: usize) -> String {
  if s.chars().count() <= n {
    s.to_string()
  } else {
    s.chars().take(n).collect::<String>() + "…"
  }
}

pub fn parse(html: &str) -> Result<Vec<Node>, String> {
  let mut stack: Vec<El> = vec![El { tag: "#root".into(), ..El::default() }];
  let b = html.as_bytes();
  let mut i = 0;
  while i < b.len() {
    if b[i] != b'<' {
      let end = html[i..].find('<').map(|p| i + p).unwrap_or(b.len());
      let raw = &html[i..end];
      let text = decode(raw)?;
      if raw.contains('>') {
        return Err(format!("unescaped `>` in text `{}`", clip(raw, 60)));
      }
      push_text(stack.last_mut().unwrap(), text);
      i = end;
      continue;
    }
    let tail = &html[i..];
    if let Some(r) = tail.strip_prefix("<!--") {
      let Some(end) = r.find("-->") else {
        return Err("unterminated comment".into());
      };
      stack.last_mut().unwrap().kids.push(Node::Comment(r[..end].to_string()));
      i += 4 + end + 3;
      continue;
    }
    if tail.starts_with("<!DOCTYPE html>") {
      if i != 0 {
        return Err("doctype not at start".into());
      }
      i += "<!DOCTYPE html>".len();
      continue;
    }
    if let Some(r) = tail.strip_prefix("</") {
      let Some(end) = r.find('>') else {
        return Err(format!("unterminated end tag `{}`", clip(tail, 40)));
      };
      let name = &r[..end];
      if !name_ok(name) {
        return Err(format!("bad end tag `</{}>`", clip(name, 40)));
      }
      if is_void(name) {
        return Err(format!("end tag for void element `{name}`"));
      }
      let top = stack.pop().unwrap();
      if stack.is_empty() {
        return Err(format!("end tag `</{name}>` with nothing open"));
      }
      if top.tag != name {
        return Err(format!("end tag `</{name}>` while `<{}>` is open", top.tag));
      }
      stack.last_mut().unwrap().kids.push(Node::El(top));
      i += 2 + end + 1;
      continue;
    }
    // start tag
    let mut j = i + 1;
    while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'-' || b[j] == b':') {
      j += 1;
    }
    let tag = &html[i + 1..j];
    if !name_ok(tag) {
      return Err(format!("stray `<` at `{}`", clip(tail, 40)));
    }
    let mut attrs: Vec<(String, String)> = vec![];
    let mut self_closed = false;
    loop {
      let mut ws = 0;
      while j < b.len() && (b[j] == b' ' || b[j] == b'\n') {
        j += 1;
        ws += 1;
      }
      if j >= b.len() {
        return Err(format!("unterminated start tag `{}`", clip(tail, 60)));
      }
      if b[j] == b'>' {
        j += 1;
        break;
      }
      if b[j] == b'/' && b.get(j + 1) == Some(&b'>') {
        self_closed = true;
        j += 2;
        break;
      }
      if ws == 0 {
        return Err(format!("no space before attribute in `{}`", clip(tail, 80)));
      }
      let st = j;
      while j < b.len() && !matches!(b[j], b'=' | b' ' | b'>' | b'"' | b'\'' | b'<' | b'/' | b'\n') {
        j += 1;
      }
      let name = &html[st..j];
      if !name_ok(name) {
        return Err(format!("bad attribute name in `{}`", clip(tail, 80)));
      }
      let mut val = String::new();
      if b.get(j) == Some(&b'=') {
        j += 1;
        if b.get(j) != Some(&b'"') {
          return Err(format!("unquoted attribute in `{}`", clip(tail, 80)));
        }
        j += 1;
        let Some(e) = html[j..].find('"') else {
          return Err(format!("unterminated attribute value in `{}`", clip(tail, 80)));
        };
        let raw = &html[j..j + e];
        if raw.contains('<') {
          return Err(format!("unescaped `<` in attribute `{name}=\"{}\"`", clip(raw, 60)));
        }
        // a bare `&` between query parameters is tolerated in URLs
        val = match decode(raw) {
          Ok(v) => v,
          Err(e) if matches!(name, "href" | "src" | "data") => {
            let _ = e;
            raw.to_string()
          }
          Err(e) => return Err(e),
        };
        j += e + 1;
      }
      if attrs.iter().any(|(n, _)| n == name) {
        return Err(format!("duplicate attribute `{name}` in `{}`", clip(tail, 80)));
      }
      attrs.push((name.to_string(), val));
    }
    let el = El { tag: tag.to_string(), attrs, kids: vec![] };
    if is_void(tag) || self_closed {
      if self_closed && !is_void(tag) {
        return Err(format!("self-closed non-void element `{tag}`"));
      }
      stack.last_mut().unwrap().kids.push(Node::El(el));
    } else if tag == "style" || tag == "script" {
      let close = format!("</{tag}>");
      let Some(e) = html[j..].find(&close) else {
        return Err(format!("unterminated <{tag}>"));
      };
      let mut el = el;
      el.kids.push(Node::Text(html[j..j + e].to_string()));
      stack.last_mut().unwrap().kids.push(Node::El(el));
      j += e + close.len();
    } else {
      stack.push(el);
    }
    i = j;
  }
  if stack.len() > 1 {
    return Err(format!("`<{}>` never closed", stack.last().unwrap().tag));
  }
  Ok(stack.pop().unwrap().kids)
}

fn push_text(el: &mut El, t: String) {
  if let Some(Node::Text(prev)) = el.kids.last_mut() {
    prev.push_str(&t);
  } else {
    el.kids.push(Node::Text(t));
  }
}

impl El {
  pub fn attr(&self, name: &str) -> Option<&str> {
    self.attrs.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
  }
  pub fn classes(&self) -> Vec<&str> {
    self.attr("class").map(|c| c.split_whitespace().collect()).unwrap_or_default()
  }
  pub fn has_class(&self, c: &str) -> bool {
    self.classes().contains(&c)
  }
  pub fn id(&self) -> Option<&str> {
    self.attr("id")
  }
  pub fn els(&self) -> impl Iterator<Item = &El> {
    self.kids.iter().filter_map(|n| match n {
      Node::El(e) => Some(e),
      _ => None,
    })
  }
  pub fn child(&self, tag: &str) -> Option<&El> {
    self.els().find(|e| e.tag == tag)
  }
  pub fn child_class(&self, c: &str) -> Option<&El> {
    self.els().find(|e| e.has_class(c))
  }
  pub fn text(&self) -> String {
    text_of(&self.kids)
  }
}

pub fn els(nodes: &[Node]) -> impl Iterator<Item = &El> {
  nodes.iter().filter_map(|n| match n {
    Node::El(e) => Some(e),
    _ => None,
  })
}

pub fn text_of(nodes: &[Node]) -> String {
  let mut s = String::new();
  fn go(nodes: &[Node], s: &mut String) {
    for n in nodes {
      match n {
        Node::Text(t) => s.push_str(t),
        Node::El(e) => go(&e.kids, s),
        Node::Comment(_) => {}
      }
    }
  }
  go(nodes, &mut s);
  s
}

/// Pre-order walk over elements.
pub fn walk<'a>(nodes: &'a [Node], f: &mut dyn FnMut(&'a El)) {
  for n in nodes {
    if let Node::El(e) = n {
      f(e);
      walk(&e.kids, f);
    }
  }
}

pub fn find_all<'a>(nodes: &'a [Node], p: &dyn Fn(&El) -> bool) -> Vec<&'a El> {
  let mut v = vec![];
  walk(nodes, &mut |e| {
    if p(e) {
      v.push(e);
    }
  });
  v
}

/// Walk with ancestor stack.
pub fn walk_anc<'a>(nodes: &'a [Node], anc: &mut Vec<&'a El>, f: &mut dyn FnMut(&'a El, &[&'a El])) {
  for n in nodes {
    if let Node::El(e) = n {
      f(e, anc);
      anc.push(e);
      walk_anc(&e.kids, anc, f);
      anc.pop();
    }
  }
}

pub fn norm_ws(s: &str) -> String {
  s.split(|c: char| c == ' ' || c == '\n' || c == '\t' || c == '\r')
    .filter(|w| !w.is_empty())
    .collect::<Vec<_>>()
    .join(" ")
}

pub fn to_string(nodes: &[Node]) -> String {
  let mut s = String::new();
  for n in nodes {
    match n {
      Node::Text(t) => s.push_str(&t.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")),
      Node::Comment(c) => s.push_str(&format!("<!--{c}-->")),
      Node::El(e) => {
        s.push('<');
        s.push_str(&e.tag);
        for (k, v) in &e.attrs {
          s.push_str(&format!(" {k}=\"{v}\""));
        }
        s.push('>');
        if !is_void(&e.tag) {
          s.push_str(&to_string(&e.kids));
          s.push_str(&format!("</{}>", e.tag));
        }
      }
    }
  }
  s
}
