use crate::engine::{Property, Tier};

#[cfg(feature = "m_parse")]
mod parse;
#[cfg(feature = "m_analysis")]
mod analysis;
#[cfg(feature = "m_lr")]
mod lr;
#[cfg(feature = "p09")]
mod build;
#[cfg(feature = "p10")]
mod views;
#[cfg(feature = "p11")]
mod wrap;
#[cfg(feature = "p12")]
mod nonnull;
#[cfg(feature = "p13")]
mod pretty;
#[cfg(feature = "p14")]
mod passes;
#[cfg(feature = "p15")]
mod state;
#[cfg(feature = "p16")]
mod tree;
#[cfg(feature = "p17")]
mod conc;
#[cfg(feature = "p18")]
mod dot;
#[cfg(feature = "p19")]
mod stream;
#[cfg(feature = "p20")]
mod buffer;
#[cfg(feature = "p21")]
mod textpos;
#[cfg(feature = "p22")]
mod typemap;
#[cfg(feature = "p23")]
mod fixed;
#[cfg(feature = "p24")]
mod collect;
#[cfg(feature = "p25")]
mod name;
#[cfg(feature = "p26")]
mod mergeable;
#[cfg(feature = "p27")]
mod fmt;
#[cfg(feature = "p28")]
mod values;
#[cfg(feature = "p29")]
mod together;
#[cfg(feature = "p30")]
mod compose;

/// Characters of all encoded widths, a combining one and the terminators.
#[cfg(feature = "p21")]
pub fn buffer_alpha() -> &'static [char] {
  &['a', '\u{e9}', '\u{3042}', '\u{1F600}', '\u{301}', '\r', '\n']
}

pub fn ids() -> Vec<&'static str> {
  #[allow(unused_mut)]
  let mut v = Vec::new();
  #[cfg(feature = "p01")]
  v.push("P01");
  #[cfg(feature = "p02")]
  v.push("P02");
  #[cfg(feature = "p03")]
  v.push("P03");
  #[cfg(feature = "p04")]
  v.push("P04");
  #[cfg(feature = "p05")]
  v.push("P05");
  #[cfg(feature = "p06")]
  v.push("P06");
  #[cfg(feature = "p07")]
  v.push("P07");
  #[cfg(feature = "p08")]
  v.push("P08");
  #[cfg(feature = "p09")]
  v.push("P09");
  #[cfg(feature = "p10")]
  v.push("P10");
  #[cfg(feature = "p11")]
  v.push("P11");
  #[cfg(feature = "p12")]
  v.push("P12");
  #[cfg(feature = "p13")]
  v.push("P13");
  #[cfg(feature = "p14")]
  v.push("P14");
  #[cfg(feature = "p15")]
  v.push("P15");
  #[cfg(feature = "p16")]
  v.push("P16");
  #[cfg(feature = "p17")]
  v.push("P17");
  #[cfg(feature = "p18")]
  v.push("P18");
  #[cfg(feature = "p19")]
  v.push("P19");
  #[cfg(feature = "p20")]
  v.push("P20");
  #[cfg(feature = "p21")]
  v.push("P21");
  #[cfg(feature = "p22")]
  v.push("P22");
  #[cfg(feature = "p23")]
  v.push("P23");
  #[cfg(feature = "p24")]
  v.push("P24");
  #[cfg(feature = "p25")]
  v.push("P25");
  #[cfg(feature = "p26")]
  v.push("P26");
  #[cfg(feature = "p27")]
  v.push("P27");
  #[cfg(feature = "p28")]
  v.push("P28");
  #[cfg(feature = "p29")]
  v.push("P29");
  #[cfg(feature = "p30")]
  v.push("P30");
  v
}

pub fn get(id: &str, tier: Tier) -> Option<Property> {
  Some(match id {
    #[cfg(feature = "p01")]
    "P01" => parse::p01(tier),
    #[cfg(feature = "p02")]
    "P02" => parse::p02(tier),
    #[cfg(feature = "p03")]
    "P03" => parse::p03(tier),
    #[cfg(feature = "p04")]
    "P04" => parse::p04(tier),
    #[cfg(feature = "p05")]
    "P05" => analysis::p05(tier),
    #[cfg(feature = "p06")]
    "P06" => analysis::p06(tier),
    #[cfg(feature = "p07")]
    "P07" => analysis::p07(tier),
    #[cfg(feature = "p08")]
    "P08" => lr::p08(tier),
    #[cfg(feature = "p09")]
    "P09" => build::p09(tier),
    #[cfg(feature = "p10")]
    "P10" => views::p10(tier),
    #[cfg(feature = "p11")]
    "P11" => wrap::p11(tier),
    #[cfg(feature = "p12")]
    "P12" => nonnull::p12(tier),
    #[cfg(feature = "p13")]
    "P13" => pretty::p13(tier),
    #[cfg(feature = "p14")]
    "P14" => passes::p14(tier),
    #[cfg(feature = "p15")]
    "P15" => state::p15(tier),
    #[cfg(feature = "p16")]
    "P16" => tree::p16(tier),
    #[cfg(feature = "p17")]
    "P17" => conc::p17(tier),
    #[cfg(feature = "p18")]
    "P18" => dot::p18(tier),
    #[cfg(feature = "p19")]
    "P19" => stream::p19(tier),
    #[cfg(feature = "p20")]
    "P20" => buffer::p20(tier),
    #[cfg(feature = "p21")]
    "P21" => textpos::p21(tier),
    #[cfg(feature = "p22")]
    "P22" => typemap::p22(tier),
    #[cfg(feature = "p23")]
    "P23" => fixed::p23(tier),
    #[cfg(feature = "p24")]
    "P24" => collect::p24(tier),
    #[cfg(feature = "p25")]
    "P25" => name::p25(tier),
    #[cfg(feature = "p26")]
    "P26" => mergeable::p26(tier),
    #[cfg(feature = "p27")]
    "P27" => fmt::p27(tier),
    #[cfg(feature = "p28")]
    "P28" => values::p28(tier),
    #[cfg(feature = "p29")]
    "P29" => together::p29(tier),
    #[cfg(feature = "p30")]
    "P30" => compose::p30(tier),
    _ => return None,
  })
}
