mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c30;
mod c31;
mod engine;
mod vmx;

use engine::Property;

fn property(id: &str, t: bool) -> Option<Property> {
    Some(match id {
        "C01" => c01::property(t),
        "C02" => c02::property(t),
        "C03" => c03::property(t),
        "C04" => c04::property(t),
        "C05" => c05::property(t),
        "C06" => c06::property(t),
        "C07" => c07::property(t),
        "C08" => c08::property(t),
        "C09" => c09::property(t),
        "C10" => c10::property(t),
        "C11" => c11::property(t),
        "C12" => c12::property(t),
        "C13" => c13::property(t),
        "C14" => c14::property(t),
        "C15" => c15::property(t),
        "C16" => c16::property(t),
        "C17" => c17::property(t),
        "C18" => c18::property(t),
        "C19" => c19::property(t),
        "C20" => c20::property(t),
        "C21" => c21::property(t),
        "C22" => c22::property(t),
        "C23" => c23::property(t),
        "C24" => c24::property(t),
        "C25" => c25::property(t),
        "C26" => c26::property(t),
        "C27" => c27::property(t),
        "C30" => c30::property(t),
        "C31" => c31::property(t),
        _ => return None,
    })
}

fn main() {
    std::process::exit(engine::main(property));
}
