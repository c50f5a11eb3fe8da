//! Parser for the contract files (/verif/contracts/<module>.vc).
//!
//! A contract file is a list of sections. A section starts with a line `@@ <kind> <args>`; inside a
//! function section, sub-sections start with `@<kind> <args>`.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub ret: Option<String>,
    pub spec: String,
    pub attrs: Vec<String>,
    /// (ghost iterator name, spec text)
    pub loops: BTreeMap<usize, (Option<String>, String)>,
    /// closure ordinal -> (ret name, ret type, spec)
    pub closures: BTreeMap<usize, (String, String, String)>,
    pub marks: Vec<(String, String)>,
    pub flags: Vec<String>,
    /// name of the variant -> contract (function body emitted a second time)
    pub variants: Vec<(String, FnContract)>,
    pub rewrites: Vec<Vec<String>>,
}

#[derive(Default, Clone, Debug)]
pub struct ModContract {
    pub prelude: String,
    pub fns: BTreeMap<String, FnContract>,
    pub impl_items: BTreeMap<String, String>,
    pub drops: Vec<String>,
    /// trait impls taken over as inherent methods (named vx_*)
    pub inherent: Vec<String>,
    /// ... of which the trait impl is kept as well, its functions declared only
    pub both: Vec<String>,
    /// types that hold values of their own type: their derived Clone is written out as a recursive function
    pub recursive: Vec<String>,
    /// attributes for structs and enums
    pub type_attrs: Vec<(String, String)>,
    pub flags: Vec<String>,
}

pub fn parse(text: &str, have: &dyn Fn(&str) -> bool) -> ModContract {
    let mut m = ModContract::default();
    enum Sec { None, Prelude, Fn(String, Option<usize>), ImplItems(String) }
    enum Sub { None, Spec, Loop(usize), Closure(usize), Mark(usize) }
    let mut sec = Sec::None;
    let mut sub = Sub::None;
    for line in text.lines() {
        if line.starts_with("@#") { continue; }
        if let Some(rest) = line.strip_prefix("@@ ") {
            let (kind, arg) = match rest.find(' ') { Some(i) => (&rest[..i], rest[i + 1..].trim()), None => (rest.trim(), "") };
            sub = Sub::None;
            sec = match kind {
                // a prelude that needs further modules
                "prelude" => if arg.split_whitespace().all(|m| have(m)) { Sec::Prelude } else { Sec::None },
                // a function that can only be taken over along with another module
                "needs" => { let (m0, k) = arg.split_once(' ').expect("@@ needs MODULE KEY"); if !have(m0) { m.drops.push(k.trim().to_string()); } Sec::None }
                "fn" => { m.fns.entry(arg.to_string()).or_default(); Sec::Fn(arg.to_string(), None) }
                "items" => { m.impl_items.entry(arg.to_string()).or_default(); Sec::ImplItems(arg.to_string()) }
                "drop" => { m.drops.push(arg.to_string()); Sec::None }
                "type" => { let (n, a) = arg.split_once(' ').expect("@@ type NAME ATTR"); m.type_attrs.push((n.to_string(), a.trim().to_string())); Sec::None }
                "both" => { m.inherent.push(arg.to_string()); m.both.push(arg.to_string()); Sec::None }
                "inherent" => { m.inherent.push(arg.to_string()); Sec::None }
                "recursive" => { m.recursive.push(arg.to_string()); Sec::None }
                "flag" => { m.flags.push(arg.to_string()); Sec::None }
                _ => panic!("unknown section {}", line),
            };
            continue;
        }
        if let Sec::Fn(name, variant) = &mut sec {
            if let Some(rest) = line.strip_prefix('@') {
                let words: Vec<&str> = rest.split_whitespace().collect();
                let base = m.fns.get_mut(name).unwrap();
                if words[0] == "variant" {
                    base.variants.push((words[1].to_string(), FnContract::default()));
                    *variant = Some(base.variants.len() - 1);
                    sub = Sub::None;
                    continue;
                }
                let f = match variant { Some(v) => &mut base.variants[*v].1, None => base };
                match words[0] {
                    "ret" => { f.ret = Some(words[1].to_string()); sub = Sub::None; }
                    "spec" => sub = Sub::Spec,
                    "attr" => { f.attrs.push(rest["attr".len()..].trim().to_string()); sub = Sub::None; }
                    "flag" => { f.flags.push(words[1..].join(" ")); sub = Sub::None; }
                    "rewrite" => { f.rewrites.push(words[1..].iter().map(|s| s.to_string()).collect()); sub = Sub::None; }
                    "loop" if words.len() <= 3 && (words.len() < 3 || !matches!(words[2], "start" | "end")) => {
                        let k: usize = words[1].parse().unwrap();
                        f.loops.insert(k, (words.get(2).map(|s| s.to_string()), String::new()));
                        sub = Sub::Loop(k);
                    }
                    "closure" => {
                        let k: usize = words[1].parse().unwrap();
                        f.closures.insert(k, (words[2].to_string(), words[3..].join(" "), String::new()));
                        sub = Sub::Closure(k);
                    }
                    _ => { f.marks.push((words.join(" "), String::new())); sub = Sub::Mark(f.marks.len() - 1); }
                }
                continue;
            }
        }
        let add = |s: &mut String| { s.push_str(line); s.push('\n'); };
        match &sec {
            Sec::None => {}
            Sec::Prelude => add(&mut m.prelude),
            Sec::ImplItems(k) => add(m.impl_items.get_mut(k).unwrap()),
            Sec::Fn(name, variant) => {
                let base = m.fns.get_mut(name).unwrap();
                let f = match variant { Some(v) => &mut base.variants[*v].1, None => base };
                match &sub {
                    Sub::None => {}
                    Sub::Spec => add(&mut f.spec),
                    Sub::Loop(k) => add(&mut f.loops.get_mut(k).unwrap().1),
                    Sub::Closure(k) => add(&mut f.closures.get_mut(k).unwrap().2),
                    Sub::Mark(i) => add(&mut f.marks[*i].1),
                }
            }
        }
    }
    m
}
