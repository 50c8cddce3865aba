include!("prelude.rs");
pub fn w_f32_asin(x: f32) -> f32 { <f32 as Asin>::asin(x) }
pub fn w_f32_cos(x: f32) -> f32 { <f32 as Cos>::cos(x) }
pub fn w_f32_cosh(x: f32) -> f32 { <f32 as Cosh>::cosh(x) }
pub fn w_f32_exp(x: f32) -> f32 { <f32 as Exp>::exp(x) }
pub fn w_f32_ln(x: f32) -> f32 { <f32 as Ln>::ln(x) }
pub fn w_f32_sin(x: f32) -> f32 { <f32 as Sin>::sin(x) }
pub fn w_f32_sinh(x: f32) -> f32 { <f32 as Sinh>::sinh(x) }
pub fn w_f32_tan(x: f32) -> f32 { <f32 as Tan>::tan(x) }
pub fn w_f32_abs(x: f32) -> f32 { <f32 as Abs>::abs(x) }
pub fn w_f32_abs_ref(x: &f32) -> f32 { <&f32 as Abs>::abs(x) }
pub fn w_f32_atan2(y: f32, x: f32) -> f32 { <f32 as Atan2>::atan2(y, x) }
pub fn w_f32_sqrt(x: &f32) -> f32 { <f32 as Sqrt>::sqrt(x) }
pub fn w_f64_asin(x: f64) -> f64 { <f64 as Asin>::asin(x) }
pub fn w_f64_cos(x: f64) -> f64 { <f64 as Cos>::cos(x) }
pub fn w_f64_cosh(x: f64) -> f64 { <f64 as Cosh>::cosh(x) }
pub fn w_f64_exp(x: f64) -> f64 { <f64 as Exp>::exp(x) }
pub fn w_f64_ln(x: f64) -> f64 { <f64 as Ln>::ln(x) }
pub fn w_f64_sin(x: f64) -> f64 { <f64 as Sin>::sin(x) }
pub fn w_f64_sinh(x: f64) -> f64 { <f64 as Sinh>::sinh(x) }
pub fn w_f64_tan(x: f64) -> f64 { <f64 as Tan>::tan(x) }
pub fn w_f64_abs(x: f64) -> f64 { <f64 as Abs>::abs(x) }
pub fn w_f64_abs_ref(x: &f64) -> f64 { <&f64 as Abs>::abs(x) }
pub fn w_f64_atan2(y: f64, x: f64) -> f64 { <f64 as Atan2>::atan2(y, x) }
pub fn w_f64_sqrt(x: &f64) -> f64 { <f64 as Sqrt>::sqrt(x) }
