//! Executes the contracts of each property on the real crate (public interface only) over bounded input sets.
#[macro_use]
mod enums_list;
#[macro_use]
mod flags_list;
mod scalars;
mod util;
mod xdata;
mod c01;
mod c02;
mod codec;
mod dec;
mod dxb;
mod files;
mod handles;
mod rt;

use std::sync::atomic::Ordering;
use std::sync::Mutex;
use util::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "BASELINE" {
        std::panic::set_hook(Box::new(|_| {}));
        for k in kinds("all") { if a.len() < 3 || a[2] == k.key() { rt::make_baseline(&*k) } }
        return;
    }
    if a[1] == "ONE" {
        // replay of one damaged file
        std::panic::set_hook(Box::new(|_| {}));
        let b = std::fs::read(&a[2]).unwrap();
        if let Some((k, m)) = std::thread::Builder::new().stack_size(64 << 20).spawn(move || files::try_bytes(&b)).unwrap().join().unwrap() { println!("{k}: {m}"); std::process::exit(3) }
        return;
    }
    let (prop, tier, seed, out, cur) = (a[1].as_str(), a[2].as_str(), a[3].parse().unwrap(), &a[4], &a[5]);
    let tier = match tier { "quick" => Tier::Quick, "search" => Tier::Search, _ => Tier::Thorough };
    std::panic::set_hook(Box::new(|_| {}));
    let c = Ctx { tier, seed, cases: Default::default(), distinct: Default::default(), violations: Mutex::new(vec![]), samples: Mutex::new(vec![]), bound: Default::default(), start: std::time::Instant::now(), current_file: cur.clone() };
    match prop {
        "C01" => c01::run(&c),
        "C02" => c02::run(&c),
        "C03" => codec::run(&c, true),
        "C04" => codec::run(&c, false),
        "C05" => codec::run_types(&c),
        "C06" => handles::text(&c),
        "C07" => handles::assign(&c),
        "C08" => handles::lookup(&c),
        "C09" => handles::normal(&c),
        "C10" => scalars::flags(&c),
        "C11" => scalars::enums(&c),
        "C12" => scalars::colors(&c),
        "C13" => scalars::versions(&c),
        "C25" => scalars::conversions(&c),
        "C14" => rt::run(&c, "entity"),
        "C15" => rt::run(&c, "object"),
        "C16" => rt::run(&c, "header"),
        "C17" => { rt::run(&c, "table"); rt::run(&c, "block") }
        "C18" => xdata::run(&c),
        "C19" => files::fuzz(&c),
        "C20" => files::unknown(&c),
        "C21" => files::order(&c),
        "C24" => files::faults(&c),
        "C26" => files::equiv(&c),
        "C22" => dxb::run(&c),
        "C23" => dxb::thumbs(&c),
        _ => panic!("unknown property"),
    }
    let v: Vec<_> = c.violations.lock().unwrap().iter().map(|(k, i, m)| serde_json::json!({"key": k, "input": i, "message": m})).collect();
    let j = serde_json::json!({"cases": c.cases.load(Ordering::Relaxed), "distinct": c.distinct.lock().unwrap().len(), "violations": v, "samples": *c.samples.lock().unwrap(), "bound": *c.bound.lock().unwrap()});
    std::fs::write(out, serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

pub fn kinds(group: &str) -> Vec<Box<dyn rt::Kind>> {
    let mut v: Vec<Box<dyn rt::Kind>> = vec![];
    let all = group == "all";
    if all || group == "entity" { v.push(Box::new(rt::Ent)) }
    if all || group == "object" { v.push(Box::new(rt::Obj)) }
    if all || group == "header" { v.push(Box::new(rt::Hdr)) }
    if all || group == "table" {
        v.push(Box::new(rt::TAppId)); v.push(Box::new(rt::TBlockRecord)); v.push(Box::new(rt::TDimStyle)); v.push(Box::new(rt::TLayer)); v.push(Box::new(rt::TLineType));
        v.push(Box::new(rt::TStyle)); v.push(Box::new(rt::TUcs)); v.push(Box::new(rt::TView)); v.push(Box::new(rt::TViewPort));
    }
    if all || group == "block" { v.push(Box::new(rt::TBlock)); v.push(Box::new(rt::Cls)) }
    v
}
