//! vx: extracts the functions of the crate as Verus text. See DESIGN.md.
//! usage: vx SRC_DIR FEATURES(comma list or -) DEBUG(0/1) CONTRACTS(comma list) CLASSFNS(comma list)
//! prints a JSON description of the crate: lowered functions, types, constants, class tables.
mod consts;
mod desugar;
mod eval;
mod load;
mod lower;
mod iterops;
mod slicepat;
use load::*;
use lower::*;
use quote::ToTokens;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

struct Orc {
    contracts: BTreeSet<String>,
    class_fns: BTreeSet<String>,
    classes: RefCell<BTreeMap<String, String>>,
}
impl Oracle for Orc {
    fn has_contract(&self, key: &str) -> bool {
        self.contracts.contains(key)
    }
    fn is_class_fn(&self, key: &str) -> bool {
        self.class_fns.contains(key)
    }
    fn class(&self, bits: &[bool; 256]) -> String {
        let s: String = bits.iter().map(|b| if *b { '1' } else { '0' }).collect();
        let mut h: u64 = 0xcbf29ce484222325;
        for b in s.bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
        let n = format!("K{:016x}", h);
        self.classes.borrow_mut().insert(n.clone(), s);
        n
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 6 {
        eprintln!("usage: vx SRC FEATURES DEBUG CONTRACTS CLASSFNS");
        std::process::exit(2);
    }
    let set = |s: &str| -> BTreeSet<String> { s.split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.to_string()).collect() };
    let cfg = Config { name: String::new(), features: set(&a[2]), debug: a[3] == "1" };
    let k = match Krate::load(Path::new(&a[1]), cfg) {
        Ok(k) => k,
        Err(e) => {
            println!("{}", json!({"error": e}));
            std::process::exit(3);
        }
    };
    let orc = Orc { contracts: set(&a[4]), class_fns: set(&a[5]), classes: Default::default() };
    let mut fns = Map::new();
    for (key, f) in &k.fns {
        let mut o = json!({
            "name": f.name, "module": f.module, "file": f.file, "lines": [f.lines.0, f.lines.1],
            "chain": f.chain, "self_ty": f.self_ty.as_ref().map(|x| x.2.clone()),
            "self_generics": f.self_ty.as_ref().map(|x| x.0.to_token_stream().to_string()),
            "self_full": f.self_ty.as_ref().map(|x| x.1.to_token_stream().to_string()),
        });
        // its text, to know it again under another name
        let (si, so, bl) = (&f.sig.inputs, &f.sig.output, &f.block);
        o["text"] = json!([si.to_token_stream().to_string(), so.to_token_stream().to_string(), bl.to_token_stream().to_string()]);
        // parameter and return types (for contracts and trait wrappers)
        if orc.contracts.contains(key) && !orc.class_fns.contains(key) {
            let mut lo = Lower::new(&k, &orc);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lo.top(f, None))) {
                Ok(Ok((sig, body))) => {
                    o["sig"] = json!(sig);
                    o["body"] = json!(body);
                    let out = &lo.out;
                    o["loops"] = Value::Array(out.loops.iter().map(|l| json!({"visible": l.visible, "modified": l.modified})).collect());
                    o["callees"] = json!(out.callees);
                    o["tw"] = json!(out.tw);
                    o["preds"] = json!(out.preds);
                    o["lits"] = json!(out.lits);
                    o["slits"] = json!(out.slits);
                    o["consts"] = json!(out.consts);
                    o["inlined"] = json!(out.inlined);
                }
                Ok(Err(e)) => { o["error"] = json!(e); o["sig"] = json!(lo.sig); }
                Err(_) => { o["error"] = json!("extractor panic"); o["sig"] = json!(lo.sig); }
            }
        }
        if orc.class_fns.contains(key) {
            // one instance with a symbolic predicate: `vx_pred(c)`
            let mut lo = Lower::new(&k, &orc);
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lo.top(f, Some(("", Bind::Pred))))) {
                Ok(Ok((sig, body))) => {
                    o["sig"] = json!(sig);
                    o["body"] = json!(body);
                    let out = &lo.out;
                    o["loops"] = Value::Array(out.loops.iter().map(|l| json!({"visible": l.visible, "modified": l.modified})).collect());
                    o["callees"] = json!(out.callees);
                    o["tw"] = json!(out.tw);
                    o["preds"] = json!(out.preds);
                    o["lits"] = json!(out.lits);
                    o["slits"] = json!(out.slits);
                    o["consts"] = json!(out.consts);
                    o["inlined"] = json!(out.inlined);
                }
                Ok(Err(e)) => { o["error"] = json!(e); o["sig"] = json!(lo.sig); }
                Err(_) => { o["error"] = json!("extractor panic"); o["sig"] = json!(lo.sig); }
            }
        }
        fns.insert(key.clone(), o);
    }
    let lo = Lower::new(&k, &orc);
    let mut types = Map::new();
    for (n, s) in &k.structs {
        types.insert(n.clone(), json!({"kind": "struct", "text": lo.item_struct(s), "derives": k.derives.get(n)}));
    }
    for (n, s) in &k.enums {
        types.insert(n.clone(), json!({"kind": "enum", "text": lo.item_enum(s), "derives": k.derives.get(n)}));
    }
    let mut consts = Map::new();
    for (n, c) in &k.consts {
        consts.insert(n.clone(), json!({"ty": c.ty.to_token_stream().to_string(), "expr": c.expr.to_token_stream().to_string()}));
    }
    println!(
        "{}",
        json!({"fns": fns, "types": types, "consts": consts, "classes": *orc.classes.borrow(), "manual_impls": k.manual_impls})
    );
}
