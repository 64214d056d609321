//! The one pseudo-random generator of the search (splitmix64).
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut x: u64) -> u64 {
	x ^= x >> 30;
	x = x.wrapping_mul(0xbf58476d1ce4e5b9);
	x ^= x >> 27;
	x = x.wrapping_mul(0x94d049bb133111eb);
	x ^ (x >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self { Rng(mix(seed ^ 0x5851f42d4c957f2d)) }
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		mix(self.0)
	}
	/// 0 <= result < n
	pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
	pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
	/// a <= result <= b
	pub fn range(&mut self, a: i64, b: i64) -> i64 {
		if b <= a { return a }
		a + self.below((b - a + 1) as u64) as i64
	}
	pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
	pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.usize(s.len())] }
	pub fn shuffle<T>(&mut self, s: &mut [T]) {
		for i in (1..s.len()).rev() { let j = self.usize(i + 1); s.swap(i, j) }
	}
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let mut v = Vec::with_capacity(n + 8);
		while v.len() < n { v.extend_from_slice(&self.next().to_le_bytes()) }
		v.truncate(n);
		v
	}
	pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
}

pub fn fnv(p: &[u8]) -> u64 {
	// same function as in sim.c
	let mut h: u64 = 0xcbf29ce484222325;
	let mut p = p;
	while p.len() >= 8 {
		let w = u64::from_le_bytes(p[..8].try_into().unwrap());
		h = (h ^ w).wrapping_mul(0x100000001b3);
		h ^= h >> 29;
		p = &p[8..];
	}
	for &b in p { h = (h ^ b as u64).wrapping_mul(0x100000001b3) }
	mix(h)
}
