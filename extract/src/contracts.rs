//! Contract files: contracts/*.vspec
//!
//! @mod rdata::mx              module the following sections belong to
//! @spec                       raw Verus text emitted at the end of the module
//! @impl Mx::ByteConvertible   raw Verus text emitted inside that impl
//! @trait ByteConvertible      raw Verus text emitted inside that trait
//! @fn Mx::ByteConvertible::to_bytes [muts=a,b] [loops=n]
//!                             requires/ensures text
//! @alt KEY [muts=a,b]         another set of proof annotations (no requires/ensures of its own),
//!                             used when the number of loops fits it or the first set fails
//! @head                       proof text at the start of the body of the last @fn
//! @loop k                     invariant/decreases text for its k-th loop
//! @lhead k                    proof text at the start of the body of its k-th loop
//! @lbefore k, @ltail k, @lafter k        proof text at the end of / behind its k-th loop
//! @tail                       proof text before the result expression is returned
//! @if feature / @endif        conditional text (also @ifnot)
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub spec: String,
    pub head: String,
    pub tail: String,
    pub muts: Vec<String>,
    pub params: Vec<String>,
    pub loops: Option<usize>,
    pub loop_inv: BTreeMap<usize, String>,
    pub loop_head: BTreeMap<usize, String>,
    pub loop_tail: BTreeMap<usize, String>,
    pub loop_after: BTreeMap<usize, String>,
    pub loop_before: BTreeMap<usize, String>,
    pub attrs: String,
    pub trusted: bool,
    pub inline: bool,
}

#[derive(Default)]
pub struct Contracts {
    pub prelude: String,
    pub spec: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub traits: BTreeMap<String, String>,
    /// spec items for trait impls without an @impl section; $T is the trait's type argument
    pub defaults: BTreeMap<String, String>,
    pub fns: BTreeMap<String, FnContract>,
    /// further proof annotations for the same contract (@alt): other loops, other invariants
    pub alts: BTreeMap<String, Vec<FnContract>>,
    pub drop: Vec<String>,
}

fn key(m: &str, k: &str) -> String {
    if m.is_empty() { k.to_string() } else { format!("{m}::{k}") }
}

pub fn glob(p: &str, s: &str) -> bool {
    let (p, s): (Vec<char>, Vec<char>) = (p.chars().collect(), s.chars().collect());
    fn go(p: &[char], s: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('*') => (0..=s.len()).any(|i| go(&p[1..], &s[i..])),
            Some(c) => s.first() == Some(c) && go(&p[1..], &s[1..]),
        }
    }
    go(&p, &s)
}

impl Contracts {
    pub fn dropped(&self, k: &str) -> bool {
        self.drop.iter().any(|d| glob(d, k))
    }

    pub fn load(dir: &Path, features: &BTreeSet<String>) -> Result<Self, String> {
        let mut c = Contracts::default();
        c.prelude = std::fs::read_to_string(dir.join("prelude.rs")).map_err(|e| e.to_string())?;
        for l in std::fs::read_to_string(dir.join("drop.txt")).map_err(|e| e.to_string())?.lines() {
            let l = l.split('#').next().unwrap().trim();
            if !l.is_empty() {
                c.drop.push(l.to_string());
            }
        }
        let mut files: Vec<_> = std::fs::read_dir(dir)
            .map_err(|e| e.to_string())?
            .flatten()
            .map(|e| e.path())
            .filter(|p| p.extension().map_or(false, |x| x == "vspec"))
            .collect();
        files.sort();
        for f in files {
            let txt = std::fs::read_to_string(&f).map_err(|e| e.to_string())?;
            c.parse(&txt, features).map_err(|e| format!("{}: {e}", f.display()))?;
        }
        let keys: Vec<String> = c.fns.keys().filter(|k| k.contains('#')).cloned().collect();
        for k in keys {
            let mut a = c.fns.remove(&k).unwrap();
            let (base, n) = k.rsplit_once('#').unwrap();
            let Some(b) = c.fns.get(base) else { return Err(format!("@alt without @fn: {base}")) };
            if !a.spec.trim().is_empty() {
                return Err(format!("@alt {base} has a specification of its own"));
            }
            a.spec = b.spec.clone();
            if a.params.is_empty() {
                a.params = b.params.clone();
            }
            if a.attrs.is_empty() {
                a.attrs = b.attrs.clone();
            }
            c.alts.get_mut(base).unwrap()[n.parse::<usize>().unwrap() - 1] = a;
        }
        Ok(c)
    }

    fn parse(&mut self, txt: &str, features: &BTreeSet<String>) -> Result<(), String> {
        enum Sec { None, Spec, Impl(String), Trait(String), Default(String), Fn, Head, Tail, Loop(usize), LHead(usize), LTail(usize), LAfter(usize), LBefore(usize) }
        let mut m = String::new();
        let mut sec = Sec::None;
        let mut cur = String::new();
        let mut skip: Vec<bool> = vec![];
        for line in txt.lines() {
            let t = line.trim();
            if let Some(r) = t.strip_prefix("@if ") {
                skip.push(!features.contains(r.trim()));
                continue;
            }
            if let Some(r) = t.strip_prefix("@ifnot ") {
                skip.push(features.contains(r.trim()));
                continue;
            }
            if t == "@endif" {
                skip.pop();
                continue;
            }
            if skip.iter().any(|b| *b) {
                continue;
            }
            if t.starts_with('@') {
                let mut it = t.split_whitespace();
                let d = it.next().unwrap();
                let a: Vec<&str> = it.collect();
                match d {
                    "@mod" => { m = a.first().map(|s| s.to_string()).unwrap_or_default(); sec = Sec::None; }
                    "@spec" => sec = Sec::Spec,
                    "@impl" => {
                        let k = key(&m, &a.join(" "));
                        self.impls.entry(k.clone()).or_default();
                        sec = Sec::Impl(k);
                    }
                    "@trait" => {
                        let k = key(&m, &a.join(" "));
                        self.traits.entry(k.clone()).or_default();
                        sec = Sec::Trait(k);
                    }
                    "@default" => {
                        let k = a.join(" ");
                        self.defaults.entry(k.clone()).or_default();
                        sec = Sec::Default(k);
                    }
                    "@fn" | "@trusted" | "@inline" | "@alt" => {
                        let full = t[d.len()..].trim();
                        let (name, rest) = match full.find(" [") { // options in [..] at the end
                            Some(i) if full.ends_with(']') => (full[..i].trim(), &full[i + 2..full.len() - 1]),
                            _ => (full, ""),
                        };
                        let k = key(&m, name);
                        let k = if d == "@alt" {
                            let v = self.alts.entry(k.clone()).or_default();
                            v.push(FnContract::default());
                            format!("{k}#{}", v.len())
                        } else { k };
                        if self.fns.contains_key(&k) {
                            return Err(format!("duplicate contract {k}"));
                        }
                        let mut fc = FnContract::default();
                        fc.trusted = d == "@trusted";
                        fc.inline = d == "@inline";
                        for opt in rest.split(';') {
                            let opt = opt.trim();
                            if let Some(v) = opt.strip_prefix("muts=") {
                                fc.muts = v.split(',').map(|s| s.trim().to_string()).collect();
                            } else if let Some(v) = opt.strip_prefix("params=") {
                                fc.params = v.split(',').map(|s| s.trim().to_string()).collect();
                            } else if let Some(v) = opt.strip_prefix("loops=") {
                                fc.loops = v.parse().ok();
                            } else if let Some(v) = opt.strip_prefix("attr=") {
                                fc.attrs.push_str(v);
                            } else if !opt.is_empty() {
                                return Err(format!("bad option {opt} in {full}"));
                            }
                        }
                        self.fns.insert(k.clone(), fc);
                        cur = k;
                        sec = Sec::Fn;
                    }
                    "@head" => sec = Sec::Head,
                    "@tail" => sec = Sec::Tail,
                    "@loop" => sec = Sec::Loop(a[0].parse().map_err(|_| "loop number")?),
                    "@lhead" => sec = Sec::LHead(a[0].parse().map_err(|_| "loop number")?),
                    "@ltail" => sec = Sec::LTail(a[0].parse().map_err(|_| "loop number")?),
                    "@lbefore" => sec = Sec::LBefore(a[0].parse().map_err(|_| "loop number")?),
                    "@lafter" => sec = Sec::LAfter(a[0].parse().map_err(|_| "loop number")?),
                    _ => return Err(format!("unknown directive {t}")),
                }
                continue;
            }
            let dst: &mut String = match &sec {
                Sec::None => {
                    if t.is_empty() || t.starts_with("//") { continue; }
                    return Err(format!("text outside a section: {t}"));
                }
                Sec::Spec => self.spec.entry(m.clone()).or_default(),
                Sec::Impl(k) => self.impls.get_mut(k).unwrap(),
                Sec::Trait(k) => self.traits.get_mut(k).unwrap(),
                Sec::Default(k) => self.defaults.get_mut(k).unwrap(),
                Sec::Fn => &mut self.fns.get_mut(&cur).unwrap().spec,
                Sec::Head => &mut self.fns.get_mut(&cur).unwrap().head,
                Sec::Tail => &mut self.fns.get_mut(&cur).unwrap().tail,
                Sec::Loop(k) => self.fns.get_mut(&cur).unwrap().loop_inv.entry(*k).or_default(),
                Sec::LHead(k) => self.fns.get_mut(&cur).unwrap().loop_head.entry(*k).or_default(),
                Sec::LTail(k) => self.fns.get_mut(&cur).unwrap().loop_tail.entry(*k).or_default(),
                Sec::LBefore(k) => self.fns.get_mut(&cur).unwrap().loop_before.entry(*k).or_default(),
                Sec::LAfter(k) => self.fns.get_mut(&cur).unwrap().loop_after.entry(*k).or_default(),
            };
            dst.push_str(line);
            dst.push('\n');
        }
        Ok(())
    }
}
