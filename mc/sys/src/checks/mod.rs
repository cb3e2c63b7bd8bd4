use crate::runner::Check;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;

pub fn all() -> Vec<Check> {
    vec![
        c01::check(),
        c02::check(),
        c03::check(),
        c04::check(),
        c05::check(),
        c06::check(),
        c07::check(),
        c08::check(),
        c09::check(),
        c10::check(),
        c11::check(),
        c12::check(),
        c13::check(),
        c14::check(),
        c15::check(),
        c16::check(),
        c17::check(),
        c18::check(),
        c19::check(),
        c20::check(),
        c21::check(),
        c22::check(),
        c23::check(),
        c24::check(),
        c25::check(),
        c26::check(),
    ]
}
