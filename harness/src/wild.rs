//! Hostile document generator: token soup, line soup and mutations of a seed corpus.

use crate::rng::Rng;

pub fn corpus() -> &'static Vec<&'static str> {
  use std::sync::OnceLock;
  static C: OnceLock<Vec<&'static str>> = OnceLock::new();
  C.get_or_init(|| include_str!("../corpus.txt").split('\x1e').filter(|s| !s.is_empty()).collect())
}

pub const TOKENS: &[&str] = &[
  " ", " ", " ", "\n", "\n", "\n", "\n\n", "\n\n", "\t", "a", "b", "foo", "bar", "Baz", "x1", "7", "42", "é", "日本", "😀",
  "\u{a0}", "\u{200b}", "*", "**", "_", "__", "`", "``", "#", "##", "^", "~", "+", "++", "+++", "++++", "'", "''", "'''",
  "\"", "\"`", "`\"", "'`", "`'", "-", "--", "---", "----", ".", "..", "...", "....", ".....", "=", "==", "===", "====",
  "=====", "======", "=======", "<", ">", "<<", ">>", "<<<", "->", "=>", "<-", "<=", "&", "&amp;", "&#167;", ";", ";;", ":",
  "::", ":::", "::::", "|", "|===", ",===", ":===", "!===", "|a", "a|", "2+|", ".2+|", "3*|", "2.3+^.>e|", "!", "a!", "[", "]",
  "[[", "]]", "[[[", "]]]", "[[id]]", "[#id]", "[.role]", "[%opt]", "[source,ruby]", "[cols=\"1,2\"]", "[quote, who, what]",
  "[verse]", "[NOTE]", "[abstract]", "[appendix]", "[qanda]", "[horizontal]", "[start=4]", "[%header%footer]", "[subs=+attributes]",
  "[subs=\"-quotes\"]", "{", "}", "{foo}", "{doctitle}", "{set:x:y}", "{counter:c}", "{empty}", "{nbsp}", "(", ")", "((", "))", "(((", ")))", "(C)", "(R)",
  "(TM)", "\\", "\\\\", "/", "//", "///", "////", "%", "@", "$", "$$", "~~~", "```", "```rust", "____", "****", "--\n", "====\n",
  "****\n", "____\n", "----\n", "....\n", "++++\n", "////\n", "|===\n", "image:", "image::", "x.png[]", "link:", "xref:", "<<id>>",
  "<<id,text>>", "http://a.b", "https://a.b[c]", "mailto:", "a@b.co", "kbd:[", "btn:[", "menu:F[", "footnote:[", "footnote:x[",
  "footnote:x[]", "icon:", "pass:[", "pass:q[", "stem:[", "include::x.adoc[]", "ifdef::foo[]", "ifndef::foo[]", "endif::[]",
  "ifeval::[1 == 1]", "ifdef::a+b[x]", "toc::[]", "video::x[]", "audio::x[]", "anchor:", "indexterm:[", "<1>", "<.>", "<!--1-->", "// <2>", "# <3>",
  "* ", "** ", "*** ", "- ", ". ", ".. ", "1. ", "a. ", "I) ", "[ ] ", "[x] ", "foo:: ", "bar;; ", "baz::: ", "NOTE: ", "TIP: ",
  "= ", "== ", "=== ", "==== ", ":foo: ", ":!foo:", ":toc:", ":sectnums:", ":idprefix:", ":leveloffset: +1", ":doctype: book",
  ":icons: font", ":experimental:", ":hardbreaks-option:", " +\n", "\\\n", " \\\n", "+\n", "\n+\n", "\r\n", "\r", "\u{b}", "\0", "\u{85}", "\u{feff}",
];

pub const LINES: &[&str] = &[
  "", "", "", "para text", "more *bold* text", "_it_ and `mono`", "= Title", "== Sect", "=== Sub", "==== Subsub", "===== L4", "====== L5",
  "* item", "** nested", "*** deeper", "- dash", ". one", ".. two", "... three", "1. num", "a. alpha", "term:: def", "term2::", "t;; d", "q::: d",
  "+", "--", "----", "....", "====", "****", "____", "++++", "////", "|===", ",===", ":===", "!===", "```", "'''", "<<<", "---", "***", "* * *",
  "|a |b", "|c", "a|x", "a,b", "\"a,b\",c", "x:y", ".Title", "[NOTE]", "NOTE: hi", "[quote,who,where]", "[verse]", "[source,rust]", "[%collapsible]", "[[anchor]]",
  "[#id.role%opt]", "[discrete]", "[abstract]", "[appendix]", "[preface]", "[index]", "[glossary]", "[bibliography]", "* [[[ref]]] b", "[partintro]", "[horizontal]", "[qanda]",
  ":name: value", ":name!:", ":!name:", ":cont: a \\", ":toc:", ":sectnums:", ":leveloffset: 1", ":leveloffset: -1", ":table-caption!:", "{name}", "ifdef::name[]", "ifndef::name[]", "endif::[]", "endif::name[]",
  "ifeval::[\"{name}\" == \"value\"]", "ifdef::name[inline]", "include::a.adoc[]", "include::b.adoc[tag=x]", "include::c.adoc[lines=1..3]", "// comment", "////", "image::x.png[]", "image::x.png[Alt,100,200]", "video::v[youtube]", "toc::[]",
  "  literal", "  two", "\tlit", "code <1>", "more <2>", "<1> one", "<2> two", "<.> auto", "<!--3-->", "\"q\"", "-- who", "> md quote", "# md", "## md2", "a footnote:[x]", "<<anchor>>", "xref:id[t]", "(((a,b)))", "((v))",
  "link:x[y]", "https://x.y", "hard +", "\\*x*", "+++raw+++", "pass:[x]", "$$x$$", "[.r]#s#", "a^b^", "a~b~", "\"`q`\"", "kbd:[C+X]", "btn:[b]", "menu:A[B>C]", "icon:x[]", "[cols=\"1,2a,^3\"]", "[%header,format=csv]", "[cols=3*]",
  "Doc Writer <d@w.co>", "v1.0, 2024-01-01: remark", "[[a,b]]", "[start=3]", "[%reversed]", "[%interactive]", "* [ ] x", "* [x] y", "[subs=+quotes]", "[subs=none]", "[subs=\"attributes,macros\"]", "[caption=\"C \"]", "[.text-center]", "[stripes=even]",
];

pub fn token_soup(r: &mut Rng, max: usize) -> String {
  let n = r.range(1, max);
  let mut s = String::new();
  for _ in 0..n {
    s.push_str(r.pick_s(TOKENS));
  }
  s
}

pub fn line_soup(r: &mut Rng, max: usize) -> String {
  let n = r.range(1, max);
  let mut s = String::new();
  for _ in 0..n {
    if r.chance(1, 8) {
      s.push_str(&token_soup(r, 6));
    } else {
      s.push_str(r.pick_s(LINES));
    }
    s.push('\n');
  }
  if r.chance(1, 4) {
    s.pop();
  }
  s
}

fn char_floor(s: &str, mut i: usize) -> usize {
  while !s.is_char_boundary(i) {
    i -= 1;
  }
  i
}

pub fn mutate(r: &mut Rng, base: &str) -> String {
  let mut s = base.to_string();
  for _ in 0..r.range(1, 5) {
    let at = char_floor(&s, if s.is_empty() { 0 } else { r.below(s.len() + 1) });
    match r.below(8) {
      0 | 1 => s.insert_str(at, r.pick_s(TOKENS)),
      2 => {
        let e = char_floor(&s, (at + r.range(1, 6)).min(s.len()));
        if e > at {
          s.replace_range(at..e, "");
        }
      }
      3 => {
        let mut ls: Vec<&str> = s.split('\n').collect();
        let i = r.below(ls.len());
        match r.below(4) {
          0 => {
            ls.remove(i);
          }
          1 => ls.insert(i, r.pick_s(LINES)),
          2 => {
            let j = r.below(ls.len());
            ls.swap(i, j);
          }
          _ => ls.insert(i, ls[i]),
        }
        s = ls.join("\n");
      }
      4 => {
        let other = *r.pick(corpus());
        let e = char_floor(other, r.below(other.len() + 1));
        s.insert_str(at, &other[..e]);
      }
      5 => {
        let e = char_floor(&s, (at + r.range(1, 3)).min(s.len()));
        s.replace_range(at..e, r.pick_s(TOKENS));
      }
      6 => s.truncate(at),
      _ => {
        let l = r.pick_s(LINES);
        s.insert_str(at, "\n");
        s.insert_str(at, l);
        s.insert_str(at, "\n");
      }
    }
    if s.len() > 20_000 {
      let e = char_floor(&s, 20_000);
      s.truncate(e);
    }
  }
  s
}

pub fn wild(r: &mut Rng) -> String {
  match r.below(10) {
    0 | 1 => token_soup(r, 12),
    2 => token_soup(r, 60),
    3 | 4 => line_soup(r, 14),
    5 => line_soup(r, 50),
    6 => {
      let c = *r.pick(corpus());
      c.to_string()
    }
    _ => {
      let c = *r.pick(corpus());
      mutate(r, c)
    }
  }
}
