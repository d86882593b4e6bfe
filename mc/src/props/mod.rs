use crate::cx::Cx;
mod config;
mod coop;
mod crit;
pub mod det;
mod doe;
mod ego;
mod egobase;
mod egorun;
mod gp;
mod gpcommon;
mod moe;
mod persist;
mod record;
mod service;
mod search;
mod settings;
mod sgp;

pub fn run(cx: &mut Cx) -> bool {
    match cx.id.as_str() {
        "D01" => doe::d01(cx),
        "D02" => doe::d02(cx),
        "D03" => doe::d03(cx),
        "D04" => doe::d04(cx),
        "D05" => doe::d05(cx),
        "G01" => gp::g01(cx),
        "G02" => gp::g02(cx),
        "G03" => gp::g03(cx),
        "G04" => sgp::g04(cx),
        "G05" => sgp::g05(cx),
        "G06" => sgp::g06(cx),
        "G07" => sgp::g07(cx),
        "M01" => moe::m01(cx),
        "M02" => moe::m02(cx),
        "M03" => moe::m03(cx),
        "M04" => moe::m04(cx),
        "E01" => egobase::e01(cx),
        "E02" => ego::e02(cx),
        "E03" => ego::e03(cx),
        "E04" => det::e04(cx),
        "E05" => persist::e05(cx),
        "E06" => persist::e06(cx),
        "E07" => persist::e07(cx),
        "E08" => service::e08(cx),
        "E09" => ego::e09(cx),
        "E10" => coop::e10(cx),
        "E13" => ego::e13(cx),
        "E15" => config::e15(cx),
        "E17" => record::e17(cx),
        "E18" => search::e18(cx),
        "E16" => settings::e16(cx),
        "E14" => ego::e14(cx),
        "E11" => crit::e11(cx),
        "E12" => crit::e12(cx),
        "X01" => egobase::x01(cx),
        "X02" => egobase::x02(cx),
        _ => return false,
    }
    true
}
