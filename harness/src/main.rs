#![allow(dead_code)]
mod cx;
mod util;
mod views;
mod elementwise;
mod kern;
#[cfg(feature = "law")] mod law;
#[cfg(feature = "t01")] mod t01;
#[cfg(feature = "t02")] mod t02;
#[cfg(feature = "t03")] mod t03;
#[cfg(feature = "t04")] mod t04;
#[cfg(feature = "t05")] mod t05;
#[cfg(feature = "t06")] mod t06;
#[cfg(feature = "t07")] mod t07;
#[cfg(feature = "t08")] mod t08;
#[cfg(feature = "t09")] mod t09;
#[cfg(feature = "t10")] mod t10;
#[cfg(feature = "t11")] mod t11;
#[cfg(feature = "t12")] mod t12;
#[cfg(feature = "t13")] mod t13;
#[cfg(feature = "t14")] mod t14;
#[cfg(feature = "t15")] mod t15;
#[cfg(feature = "t16")] mod t16;
#[cfg(feature = "t19")] mod t19;
#[cfg(feature = "t20")] mod t20;
#[cfg(feature = "t17")] mod t17;
#[cfg(feature = "t18")] mod t18;
use cx::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let prop = a.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").map(|t| t == "thorough").unwrap_or(false);
    let budget: f64 = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    install_handlers();
    let mut cx = Cx::new(seed, thorough, budget, get("--only"));
    match prop.as_str() {
        #[cfg(feature = "law")]
        "LAW" => law::run(&mut cx),
        #[cfg(feature = "t01")]
        "T01" => t01::run(&mut cx),
        #[cfg(feature = "t02")]
        "T02" => t02::run(&mut cx),
        #[cfg(feature = "t03")]
        "T03" => t03::run(&mut cx),
        #[cfg(feature = "t04")]
        "T04" => t04::run(&mut cx),
        #[cfg(feature = "t05")]
        "T05" => t05::run(&mut cx),
        #[cfg(feature = "t06")]
        "T06" => t06::run(&mut cx),
        #[cfg(feature = "t07")]
        "T07" => t07::run(&mut cx),
        #[cfg(feature = "t08")]
        "T08" => t08::run(&mut cx),
        #[cfg(feature = "t09")]
        "T09" => t09::run(&mut cx),
        #[cfg(feature = "t10")]
        "T10" => t10::run(&mut cx),
        #[cfg(feature = "t11")]
        "T11" => t11::run(&mut cx),
        #[cfg(feature = "t12")]
        "T12" => t12::run(&mut cx),
        #[cfg(feature = "t13")]
        "T13" => t13::run(&mut cx),
        #[cfg(feature = "t14")]
        "T14" => t14::run(&mut cx),
        #[cfg(feature = "t15")]
        "T15" => t15::run(&mut cx),
        #[cfg(feature = "t16")]
        "T16" => t16::run(&mut cx),
        #[cfg(feature = "t19")]
        "T19" => t19::run(&mut cx),
        #[cfg(feature = "t20")]
        "T20" => t20::run(&mut cx),
        #[cfg(feature = "t17")]
        "T17" => t17::run(&mut cx),
        #[cfg(feature = "t18")]
        "T18" => t18::run(&mut cx),
        _ => { eprintln!("unknown property {}", prop); std::process::exit(2) }
    }
    let per: Vec<String> = cx.per.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    let samples: Vec<String> = cx.samples.iter().map(|s| jstr(s)).collect();
    let fails: Vec<String> = cx.fails.iter().map(|f| format!("{{\"contract\":{},\"input\":{},\"message\":{}}}", jstr(&f.contract), jstr(&f.input), jstr(&f.msg))).collect();
    println!("\nRESULT {{\"evaluations\":{},\"distinct\":{},\"per\":{{{}}},\"samples\":[{}],\"failures\":[{}]}}", cx.evals, cx.distinct.len(), per.join(","), samples.join(","), fails.join(","));
}
