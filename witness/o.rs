include!("prelude.rs");

pub fn w_de<T, const N: usize, R: rand::Rng, C: FnMut(&[T; N], &[T; N]) -> bool>(
    bounds: &[(T, T); N], population_size: usize, crossover_probability: f32, differential_weight: T,
    num_iters: usize, rng: &mut R, cmp: C,
) -> [T; N]
where
    T: PartialOrd + Clone + Copy + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T> + rand::distributions::uniform::SampleUniform,
    f32: Into<T>, i8: Into<T>,
{
    magnesia::optimize::differential_evolution(bounds, population_size, crossover_probability, differential_weight, num_iters, rng, cmp)
}
