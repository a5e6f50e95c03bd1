use crate::core::Prop;
pub mod air;
pub mod cal;
pub mod facts;
pub mod geo;
pub mod geo2;
pub mod geo3;
pub mod heat;
pub mod house;
pub mod light;
pub mod mat;
pub mod prog;
pub mod rend;
pub mod sim;
pub mod text;
pub mod wea;
pub mod wea2;

pub fn all() -> Vec<&'static Prop> {
    let mut v: Vec<&'static Prop> = vec![];
    v.extend(cal::PROPS);
    v.extend(mat::PROPS);
    v.extend(geo::PROPS);
    v.extend(geo2::PROPS);
    v.extend(geo3::PROPS);
    v.extend(wea::PROPS);
    v.extend(wea2::PROPS);
    v.extend(heat::PROPS);
    v.extend(air::PROPS);
    v.extend(light::PROPS);
    v.extend(sim::PROPS);
    v.extend(text::PROPS);
    v.extend(rend::PROPS);
    v.extend(prog::PROPS);
    v.extend(facts::PROPS);
    v
}

/// How many times the number of cases of its workloads a property runs in each tier: cheap ones
/// run many more, so that every check spends a few seconds (quick) or minutes (thorough).
pub fn effort(id: &str) -> (u64, u64) {
    match id {
        "C02" | "G12" | "G01" | "G02" | "G04" | "G05" | "G06" | "G08" | "G09" | "W01" | "W03" | "W05" | "W06" | "H01" | "H02" | "H05" | "A01" | "K02" | "X07" | "N06" | "N08" | "W08" => (10, 30),
        "C01" | "M01" | "M02" | "G03" | "G07" | "W02" | "W04" | "H04" | "X05" | "N10" | "N12" | "P01" => (5, 15),
        "X06" | "X08" | "L01" | "N03" | "N04" | "N05" | "K01" | "G10" | "G11" | "W07" => (2, 6),
        _ => (1, 2),
    }
}
