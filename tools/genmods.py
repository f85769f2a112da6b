import os
os.chdir('/verif/harness')
ids=[f"P{i:02}" for i in range(1,31)]
mods={**{f"P{i:02}":"parse" for i in range(1,5)},**{f"P{i:02}":"analysis" for i in range(5,8)}}
own={8:"lr",9:"build",10:"views",11:"wrap",12:"nonnull",13:"pretty",14:"passes",15:"state",16:"tree",17:"conc",18:"dot",19:"stream",20:"buffer",21:"textpos",22:"typemap",23:"fixed",24:"collect",25:"name",26:"mergeable",27:"fmt",28:"values",29:"together",30:"compose"}
for i,m in own.items(): mods[f"P{i:02}"]=m
s="use crate::engine::{Property, Tier};\n\n#[cfg(feature = \"m_parse\")]\nmod parse;\n#[cfg(feature = \"m_analysis\")]\nmod analysis;\n#[cfg(feature = \"m_lr\")]\nmod lr;\n"
for i,m in own.items():
    if m!="lr" and os.path.exists(f"src/props/{m}.rs"): s+=f"#[cfg(feature = \"p{i:02}\")]\nmod {m};\n"
s+="""
/// Characters of all encoded widths, a combining one and the terminators.
#[cfg(feature = "p21")]
pub fn buffer_alpha() -> &'static [char] {
  &['a', '\\u{e9}', '\\u{3042}', '\\u{1F600}', '\\u{301}', '\\r', '\\n']
}
"""
s+="\npub fn ids() -> Vec<&'static str> {\n  #[allow(unused_mut)]\n  let mut v = Vec::new();\n"
for p in ids:
    if os.path.exists(f"src/props/{mods[p]}.rs"): s+=f"  #[cfg(feature = \"{p.lower()}\")]\n  v.push(\"{p}\");\n"
s+="  v\n}\n\npub fn get(id: &str, tier: Tier) -> Option<Property> {\n  Some(match id {\n"
for p in ids:
    if os.path.exists(f"src/props/{mods[p]}.rs"): s+=f"    #[cfg(feature = \"{p.lower()}\")]\n    \"{p}\" => {mods[p]}::{p.lower()}(tier),\n"
s+="    _ => return None,\n  })\n}\n"
open("src/props/mod.rs","w").write(s)
