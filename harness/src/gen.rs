//! Input generation: shapes, value patterns, memory layouts. Every case is a function of
//! (seed, property, index) only.
use ndarray::*;
use rand::prelude::*;
use rand_xoshiro::Xoshiro256Plus;

pub trait Fl: NdFloat + std::iter::Sum + linfa_linalg::lobpcg::MagnitudeCorrection + Send + Sync {
    const EPS: f64;
    const NAME: &'static str;
    /// power of ten whose square neither overflows nor underflows
    const P10: i32;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    const P10: i32 = 100;
    fn of(x: f64) -> f64 { x }
    fn f(self) -> f64 { self }
    fn bits(self) -> u64 { self.to_bits() }
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    const P10: i32 = 4;
    fn of(x: f64) -> f32 { x as f32 }
    fn f(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
}

pub struct Gen {
    pub rng: Xoshiro256Plus,
    pub big: usize,
    pub log: Vec<String>,
    pub hash: u64,
    pub nontrivial: bool,
    pub samples: String,
}

fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Dense, Int, Bin, Graded, Sparse, LowRank, Perturbed, Zero, Perm, RowGraded, SparseEps, Dup }
const KINDS: [Kind; 12] = [Kind::Dense, Kind::Int, Kind::Bin, Kind::Graded, Kind::Sparse, Kind::LowRank, Kind::Perturbed, Kind::Zero, Kind::Perm, Kind::RowGraded, Kind::SparseEps, Kind::Dup];

impl Gen {
    pub fn new(seed: u64, prop: u64, idx: u64, big: usize) -> Gen {
        Gen { rng: Xoshiro256Plus::seed_from_u64(mix(mix(mix(seed.wrapping_add(0x9e3779b97f4a7c15)) ^ prop) ^ idx.wrapping_mul(0x2545F4914F6CDD1D))), big, log: vec![], hash: 0, nontrivial: false, samples: String::new() }
    }
    pub fn note(&mut self, s: String) { self.log.push(s) }
    pub fn chance(&mut self, p: f64) -> bool { self.rng.gen_bool(p) }
    pub fn below(&mut self, n: usize) -> usize { self.rng.gen_range(0..n) }
    /// dimension, biased to small ones
    pub fn dim(&mut self, lo: usize) -> usize {
        let r = match self.rng.gen_range(0..20) { 0..=3 => 3, 4..=16 => 8, 17 | 18 => 14, _ => self.big };
        self.rng.gen_range(lo..=r.max(lo))
    }
    pub fn kind(&mut self) -> Kind {
        match self.rng.gen_range(0..20) { n if n < 12 => KINDS[n], 12..=14 => Kind::Dense, 15 | 16 => Kind::Sparse, 17 => Kind::LowRank, 18 => Kind::Perturbed, _ => Kind::Int }
    }
    pub fn unit(&mut self) -> f64 { self.rng.gen_range(-1.0..1.0) }
    pub fn elem(&mut self, k: Kind, i: usize, j: usize) -> f64 {
        match k {
            Kind::Dense | Kind::LowRank | Kind::Dup => self.unit(),
            Kind::Int => self.rng.gen_range(-3..4) as f64,
            Kind::Bin => self.rng.gen_range(0..2) as f64,
            Kind::Graded => 10f64.powi(self.rng.gen_range(-9..9)) * self.unit(),
            Kind::Sparse => if self.chance(0.35) { self.unit() } else { 0. },
            Kind::Perturbed => self.rng.gen_range(-1..2) as f64 + 1e-8 * self.rng.gen_range(-2..3) as f64,
            Kind::Zero => 0.,
            Kind::Perm => 0.,
            Kind::RowGraded => 10f64.powi((-2 * ((i + j) as i32)).max(-12)) * self.unit(),
            Kind::SparseEps => if self.chance(0.4) { 10f64.powi(-self.rng.gen_range(0..14)) * (self.rng.gen_range(-1..2) as f64) } else { 0. },
        }
    }
    pub fn raw(&mut self, r: usize, c: usize) -> Array2<f64> {
        let k = self.kind();
        self.raw_kind(r, c, k)
    }
    pub fn raw_kind(&mut self, r: usize, c: usize, k: Kind) -> Array2<f64> {
        let mut a = match k {
            Kind::LowRank => {
                let rk = self.rng.gen_range(0..4usize);
                let x = Array2::from_shape_fn((r, rk), |_| 0.).mapv(|_: f64| self.unit());
                let y = Array2::from_shape_fn((rk, c), |_| 0.).mapv(|_: f64| self.unit());
                x.dot(&y)
            }
            Kind::Perm => {
                let mut a = Array2::zeros((r, c));
                let mut p: Vec<usize> = (0..c).collect();
                p.shuffle(&mut self.rng);
                for i in 0..r.min(c) { a[(i, p[i])] = self.rng.gen_range(-2..3) as f64; }
                a
            }
            _ => {
                let mut a = Array2::zeros((r, c));
                for i in 0..r { for j in 0..c { a[(i, j)] = self.elem(k, i, j); } }
                a
            }
        };
        if k == Kind::Dup && r > 0 && c > 1 {
            for _ in 0..2 { let (i, j) = (self.below(c), self.below(c)); let x = a.column(i).to_owned(); let f = [0., 1., -1., 1e-14][self.below(4)]; a.column_mut(j).assign(&(x * f)); }
            if r > 1 { let (i, j) = (self.below(r), self.below(r)); let x = a.row(i).to_owned(); a.row_mut(j).assign(&x); }
        }
        // single zeroed entries, negative zeros
        if r * c > 0 && self.chance(0.1) { let (i, j) = (self.below(r), self.below(c)); a[(i, j)] = -0.0; }
        if r * c > 0 && self.chance(0.08) { let j = self.below(c); let i0 = self.below(r); for i in i0..r { a[(i, j)] = 0.; } }
        if r * c > 0 && self.chance(0.08) { let i = self.below(r); let j0 = self.below(c); for j in j0..c { a[(i, j)] = 0.; } }
        a
    }
    /// multiply by a random power of two/ten scale now and then
    pub fn scale<A: Fl>(&mut self, a: Array2<f64>) -> Array2<A> {
        let s = if self.chance(0.12) { 10f64.powi(self.rng.gen_range(-A::P10..=A::P10)) } else { 1. };
        a.mapv(|x| A::of(x * s))
    }
    pub fn record<A: Fl>(&mut self, name: &str, a: &Array2<A>) {
        for (i, x) in a.iter().enumerate() { self.hash = mix(self.hash ^ x.bits() ^ (i as u64) << 32).wrapping_add(a.ncols() as u64 + 131 * a.nrows() as u64); }
        self.hash = mix(self.hash ^ (a.nrows() * 1000 + a.ncols()) as u64);
        if a.len() > 1 && a.iter().any(|x| !x.is_zero()) { self.nontrivial = true; }
        let rows: Vec<String> = a.outer_iter().map(|r| format!("[{}]", r.iter().map(|x| format!("{:?}", x.f())).collect::<Vec<_>>().join(", "))).collect();
        let s = format!("{name}: {} {}x{} [{}]", A::NAME, a.nrows(), a.ncols(), rows.join(", "));
        if std::env::var_os("HARNESS_LIVE").is_some() { println!("{s}"); }
        self.log.push(s);
    }
    pub fn mat<A: Fl>(&mut self, name: &str, r: usize, c: usize) -> Array2<A> {
        let a = self.raw(r, c);
        let a = self.scale(a);
        self.record(name, &a);
        a
    }
    /// symmetric
    pub fn sym<A: Fl>(&mut self, name: &str, n: usize) -> Array2<A> {
        let mut a = self.raw(n, n);
        match self.below(8) {
            0 => { // tridiagonal
                for i in 0..n { for j in 0..n { if i + 1 < j || j + 1 < i { a[(i, j)] = 0. } } }
            }
            1 => { // diagonal
                for i in 0..n { for j in 0..n { if i != j { a[(i, j)] = 0. } } }
            }
            2 => a = a.dot(&a.t()),
            3 => { // block diagonal
                let k = self.below(n + 1);
                for i in 0..n { for j in 0..n { if (i < k) != (j < k) { a[(i, j)] = 0. } } }
            }
            4 => { // close to a multiple of the identity
                for i in 0..n { for j in 0..n { a[(i, j)] = a[(i, j)] * 1e-9 + if i == j { 1. } else { 0. }; } }
            }
            _ => {}
        }
        for i in 0..n { for j in 0..i { a[(i, j)] = a[(j, i)]; } }
        let mut a: Array2<A> = self.scale(a);
        for i in 0..n { for j in 0..i { a[(i, j)] = a[(j, i)]; } }
        self.record(name, &a);
        a
    }
    pub fn layout(&mut self) -> u8 { let l = self.rng.gen_range(0..6u8); self.log.push(format!("layout {l}")); l }
}

/// A matrix embedded in a larger buffer of sentinels with a chosen layout.
pub struct Lay<A> { pub buf: Array2<A>, kind: u8, r: usize, c: usize }
impl<A: Fl> Lay<A> {
    pub fn new(m: &Array2<A>, kind: u8) -> Lay<A> {
        let (r, c) = m.dim();
        let sent = A::of(-77777.25);
        let buf = match kind {
            0 => Array2::from_elem((r, c), sent),
            1 => Array2::from_elem((r, c).f(), sent),
            2 => Array2::from_elem((2 * r + 3, 3 * c + 3), sent),
            3 => Array2::from_elem((2 * r + 3, 3 * c + 3).f(), sent),
            4 => Array2::from_elem((r, c), sent),
            _ => Array2::from_elem((r + 2, c + 2), sent),
        };
        let mut s = Lay { buf, kind, r, c };
        s.vm().assign(m);
        s
    }
    pub fn vm(&mut self) -> ArrayViewMut2<'_, A> {
        let (r, c) = (self.r, self.c);
        match self.kind {
            0 | 1 => self.buf.view_mut(),
            2 | 3 => self.buf.slice_mut(s![1..1 + 2 * r;2, 2..2 + 3 * c;3]),
            4 => self.buf.slice_mut(s![..;-1, ..;-1]),
            _ => self.buf.slice_mut(s![1..1 + r, 1..1 + c]),
        }
    }
    pub fn v(&self) -> ArrayView2<'_, A> {
        let (r, c) = (self.r, self.c);
        match self.kind {
            0 | 1 => self.buf.view(),
            2 | 3 => self.buf.slice(s![1..1 + 2 * r;2, 2..2 + 3 * c;3]),
            4 => self.buf.slice(s![..;-1, ..;-1]),
            _ => self.buf.slice(s![1..1 + r, 1..1 + c]),
        }
    }
    /// owned array with this element order (C or F), for consuming forms
    pub fn owned(&self) -> Array2<A> {
        let m = self.v();
        if self.kind % 2 == 1 { let mut o = Array2::zeros((self.r, self.c).f()); o.assign(&m); o } else { m.to_owned() }
    }
    /// no element outside the embedded matrix changed
    pub fn frame_ok(&mut self) -> bool {
        let (r, c) = (self.r, self.c);
        let mut copy = Lay { buf: self.buf.clone(), kind: self.kind, r, c };
        let sent = A::of(-77777.25);
        copy.vm().fill(sent);
        copy.buf.iter().all(|&x| x == sent)
    }
}
