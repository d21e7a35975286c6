use crate::engine::Ctx;
use std::sync::Arc;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
pub mod common;

pub fn run(id: &str, ctx: &Arc<Ctx>) -> Option<i32> {
    let f: fn(&Ctx) -> i32 = match id {
        "C01" => c01::run,
        "C02" => c02::run,
        "C03" => c03::run,
        "C04" => c04::run,
        "C05" => c05::run,
        "C06" => c06::run,
        "C07" => c07::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C10" => c10::run,
        "C11" => c11::run,
        "C12" => c12::run,
        "C13" => c13::run,
        "C14" => c14::run,
        "C15" => c15::run,
        "C16" => c16::run,
        "C17" => c17::run,
        "C18" => c18::run,
        "C19" => c19::run,
        "C20" => c20::run,
        "C21" => c21::run,
        "C22" => c22::run,
        "C23" => c23::run,
        "C24" => c24::run,
        "C25" => c25::run,
        "C26" => c26::run,
        "C27" => c27::run,
        "C28" => c28::run,
        _ => return None,
    };
    Some(f(ctx))
}
