//! Stands in for rand_distr in the unit tests of /repo.

pub use rand::distributions::Distribution;

#[derive(Clone, Copy, Debug)]
pub struct Normal(f64, f64);
impl Normal {
    pub fn new(mean: f64, sd: f64) -> Result<Normal, &'static str> {
        Ok(Normal(mean, sd))
    }
}
impl Distribution<f64> for Normal {
    fn sample<R: rand::Rng + ?Sized>(&self, r: &mut R) -> f64 {
        let (a, b): (f64, f64) = (r.gen_range(f64::EPSILON..1.0), r.gen_range(0.0..1.0));
        self.0 + self.1 * (-2.0 * a.ln()).sqrt() * (2.0 * std::f64::consts::PI * b).cos()
    }
}
