#![allow(dead_code)]
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod pyt;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c24;
mod qs;
mod gen;
mod ctx;
mod interp;
mod prog;
mod sim;

use tket::hugr::HugrView;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    if args[1] == "show" {
        let b = prog::build(&args[2]).unwrap();
        println!("{}", b.hugr.mermaid_string());
        let sig = b.hugr.get_optype(b.main).as_func_defn().unwrap().signature().body().clone();
        let tys: Vec<_> = sig.input.iter().cloned().collect();
        println!("{:?}", interp::explore(&b.hugr, b.main, &interp::args_for(&tys).unwrap(), &Default::default()));
        return;
    }
    let tier = get("--tier").unwrap_or("quick".into());
    let ctx = ctx::Ctx::new(&args[1], tier == "thorough", get("--case"));
    let run = || match args[1].as_str() {
        "C01" => c01::run(&ctx),
        "C02" => c02::run(&ctx),
        "C03" => c03::run(&ctx),
        "C04" => c04::run(&ctx),
        "C05" => c05::run(&ctx),
        "C06" => c06::run(&ctx),
        "C07" => c07::run(&ctx),
        "C08" => c08::run(&ctx),
        "C10" => c10::run(&ctx),
        "C11" => c11::run(&ctx),
        "C12" => c12::run(&ctx),
        "C13" => c13::run(&ctx),
        "C14" => c14::run(&ctx),
        "C15" => c15::run(&ctx),
        "C16" => c16::run(&ctx),
        "C17" => c17::run(&ctx),
        "C18" => c18::run(&ctx),
        "C19" => c19::run(&ctx),
        "C20" => c20::run(&ctx),
        "C21" => c21::run(&ctx),
        "C24" => c24::run(&ctx),
        "C22" => c22::run(&ctx),
        x => {
            eprintln!("unknown check {x}");
            std::process::exit(2)
        }
    };
    // A panic of the code under test while the cases are prepared
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(run)).is_err() {
        let p = ctx::PANIC.with(|p| p.borrow().clone());
        ctx.fail("preparing the cases", &format!("panic: {p}"));
    }
    std::process::exit(ctx.finish());
}
