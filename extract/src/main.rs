//! Mechanical extraction of maybe-dns into one Verus file.
//!
//! usage: extract REPO_SRC CONTRACT_DIR OUT.rs OUT.map [--features a,b] [--vacuity]
//!                [--quarantine key]... [--stats]
//!
//! What it keeps: every struct, enum, const, trait, impl and fn of the crate that is not on the
//! drop list (contracts/drop.txt).  What it changes is listed in DESIGN.md ("What the extraction
//! changes"); everything else of a body is emitted token for token.
mod contracts;
mod desugar;
mod emit;

use std::collections::BTreeSet;
use std::path::{Path, PathBuf};

pub struct Opts {
    pub features: BTreeSet<String>,
    pub vacuity: bool,
    pub quarantine: BTreeSet<String>,
    pub variant: std::collections::BTreeMap<String, usize>,
}

/// Evaluate one cfg predicate.
pub fn cfg_true(meta: &syn::Meta, o: &Opts) -> bool {
    match meta {
        syn::Meta::Path(p) => {
            if p.is_ident("test") || p.is_ident("kani") || p.is_ident("fuzzing") {
                return false;
            }
            // debug_assertions and friends: off, as in a release build
            p.is_ident("unix") || p.is_ident("panic")
        }
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let syn::Expr::Lit(l) = &nv.value {
                    if let syn::Lit::Str(s) = &l.lit {
                        return o.features.contains(&s.value());
                    }
                }
            }
            if nv.path.is_ident("target_pointer_width") {
                if let syn::Expr::Lit(l) = &nv.value {
                    if let syn::Lit::Str(s) = &l.lit {
                        return s.value() == "64";
                    }
                }
            }
            false
        }
        syn::Meta::List(l) => {
            let inner = l
                .parse_args_with(
                    syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated,
                )
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(|m| cfg_true(m, o))
            } else if l.path.is_ident("all") {
                inner.iter().all(|m| cfg_true(m, o))
            } else if l.path.is_ident("any") {
                inner.iter().any(|m| cfg_true(m, o))
            } else {
                false
            }
        }
    }
}

/// Are these attributes enabled?
pub fn enabled(attrs: &[syn::Attribute], o: &Opts) -> bool {
    for a in attrs {
        if a.path().is_ident("cfg") {
            if let Ok(m) = a.parse_args::<syn::Meta>() {
                if !cfg_true(&m, o) {
                    return false;
                }
            }
        }
        if a.path().is_ident("test") {
            return false;
        }
    }
    true
}

pub struct Module {
    pub path: String, // "" for the crate root, else "rdata::mx"
    pub items: Vec<syn::Item>,
    pub children: Vec<Module>,
}

fn load(dir: &Path, file: &Path, path: &str, o: &Opts) -> Result<Module, String> {
    let txt = std::fs::read_to_string(file).map_err(|e| format!("{}: {e}", file.display()))?;
    let f = syn::parse_file(&txt).map_err(|e| format!("{}: {e}", file.display()))?;
    load_items(dir, f.items, path, o)
}

fn load_items(dir: &Path, items: Vec<syn::Item>, path: &str, o: &Opts) -> Result<Module, String> {
    let mut m = Module { path: path.into(), items: vec![], children: vec![] };
    for it in items {
        let attrs = emit::item_attrs(&it);
        if !enabled(attrs, o) {
            continue;
        }
        if let syn::Item::Mod(md) = &it {
            let name = md.ident.to_string();
            let sub = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
            if let Some((_, its)) = &md.content {
                m.children.push(load_items(&dir.join(&name), its.clone(), &sub, o)?);
            } else {
                let mut fa = dir.join(format!("{name}.rs"));
                let fb = dir.join(&name).join("mod.rs");
                if !fa.exists() && fb.exists() {
                    fa = fb;
                }
                m.children.push(load(&dir.join(&name), &fa, &sub, o)?);
            }
            continue;
        }
        m.items.push(it);
    }
    Ok(m)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: extract SRC CONTRACTS OUT MAP [opts]");
        std::process::exit(2);
    }
    let mut o = Opts { features: BTreeSet::new(), vacuity: false, quarantine: BTreeSet::new(), variant: Default::default() };
    let mut i = 5;
    while i < args.len() {
        match args[i].as_str() {
            "--features" => {
                i += 1;
                o.features = args[i].split(',').filter(|s| !s.is_empty()).map(String::from).collect();
            }
            "--vacuity" => o.vacuity = true,
            "--quarantine" => {
                i += 1;
                o.quarantine.insert(args[i].clone());
            }
            "--variant" => {
                i += 1;
                let (k, n) = args[i].rsplit_once('=').unwrap();
                o.variant.insert(k.to_string(), n.parse().unwrap());
            }
            x => {
                eprintln!("unknown option {x}");
                std::process::exit(2);
            }
        }
        i += 1;
    }
    let src = PathBuf::from(&args[1]);
    let root = match load(&src, &src.join("lib.rs"), "", &o) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("EXTRACT-ERROR {e}");
            std::process::exit(3);
        }
    };
    let contracts = match contracts::Contracts::load(Path::new(&args[2]), &o.features) {
        Ok(c) => c,
        Err(e) => {
            eprintln!("EXTRACT-ERROR {e}");
            std::process::exit(3);
        }
    };
    let out = emit::emit(&root, &contracts, &o);
    std::fs::write(&args[3], &out.text).unwrap();
    std::fs::write(&args[4], &out.map).unwrap();
}
