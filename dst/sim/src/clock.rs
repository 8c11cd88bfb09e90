/// Vector clock over task ids.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct VClock(Vec<u32>);

impl VClock {
    pub const fn new() -> Self {
        VClock(Vec::new())
    }
    pub fn get(&self, t: usize) -> u32 {
        self.0.get(t).copied().unwrap_or(0)
    }
    pub fn bump(&mut self, t: usize) {
        if self.0.len() <= t {
            self.0.resize(t + 1, 0);
        }
        self.0[t] += 1;
    }
    pub fn join(&mut self, o: &VClock) {
        if self.0.len() < o.0.len() {
            self.0.resize(o.0.len(), 0);
        }
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a = (*a).max(*b);
        }
    }
}
