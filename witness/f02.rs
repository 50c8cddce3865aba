include!("prelude.rs");
pub fn w_ackley(x: f32, y: f32) -> f32 { magnesia::optimize::test_functions::ackley(x, y) }
