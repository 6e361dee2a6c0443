mod gen;
mod driver;
mod tree;
mod p_data;
mod p_boost;
mod p_learn;
mod p_loss;

use driver::Check;
fn table_of(prop: &str) -> Option<(Check, u64, u64)> {
    // (check, quick cases, thorough cases)
    Some(match prop {
        "D01" => (p_data::d01, 1500, 40000),
        "D02" => (p_data::d02, 600, 15000),
        "D03" => (p_data::d03, 600, 15000),
        "D04" => (p_data::d04, 600, 10000),
        "D05" => (p_data::d05, 800, 15000),
        "E01" => (p_data::e01, 3000, 60000),
        "E02" => (p_data::e02, 500, 10000),
        "A01" => (p_boost::a01, 600, 12000),
        "A02" => (p_boost::a02, 600, 12000),
        "A03" => (p_boost::a03, 600, 12000),
        "A04" => (p_boost::a04, 600, 12000),
        "A05" => (p_boost::a05, 4000, 20000),
        "A06" => (p_boost::a06, 2000, 40000),
        "A07" => (p_boost::a07, 300, 5000),
        "A08" => (p_boost::a08, 1500, 30000),
        "A09" => (p_boost::a09, 1500, 20000),
        "A10" => (p_boost::a10, 4000, 60000),
        "A11" => (p_boost::a11, 2000, 30000),
        "A12" => (p_boost::a12, 2000, 12000),
        "A13" => (p_boost::a13, 360, 6000),
        "T01" => (p_learn::t01, 2500, 40000),
        "T02" => (p_learn::t02, 2500, 40000),
        "T03" => (p_learn::t03, 2500, 40000),
        "N01" => (p_learn::n01, 2500, 40000),
        "W01" => (p_learn::w01, 2000, 30000),
        "L01" => (p_loss::l01, 20000, 400000),
        "L02" => (p_loss::l02, 2500, 40000),
        "R01" => (p_loss::r01, 500, 8000),
        _ => return None,
    })
}

fn main() { driver::run(table_of); }
