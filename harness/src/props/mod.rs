use crate::orch::Prop;

pub mod agree;
pub mod locate;
pub mod attrs;
pub mod intrinsic;
pub mod xdoc;
pub mod media;
pub mod modelled;
pub mod page;
pub mod preproc;
pub mod rewrites;
pub mod captions;
pub mod cli;
pub mod sections;
pub mod select;
pub mod subs;
pub mod totality;

pub fn all() -> Vec<&'static dyn Prop> {
  use modelled as m;
  vec![
    &totality::Totality,
    &m::INLINE_FMT,
    &m::SYMBOLS,
    &m::LINKS,
    &m::XREFS,
    &m::FOOTNOTES,
    &m::MACROS,
    &attrs::Attributes,
    &m::META,
    &m::VERBATIM,
    &m::CONTAINERS,
    &m::LISTS,
    &m::TABLES,
    &m::WHOLE,
    &sections::Sections,
    &captions::Captions,
    &preproc::LineEndings,
    &preproc::Splice,
    &preproc::Conditionals,
    &agree::Agree,
    &cli::Contain,
    &cli::FrontEnds,
    &locate::Locate,
    &media::Media,
    &intrinsic::Intrinsic,
    &xdoc::Xdoc,
    &select::Select,
    &subs::Subs,
    &page::Page,
    &rewrites::Comments,
    &rewrites::WellFormed,
    &rewrites::Determinism,
    &rewrites::Strictness,
  ]
}

pub fn get(id: &str) -> &'static dyn Prop {
  all().into_iter().find(|p| p.id() == id).unwrap_or_else(|| {
    eprintln!("unknown property {id}");
    std::process::exit(2)
  })
}
