//! multiscalar multiplication and the Groth16 scheme over abstract groups
use bn_254::{Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use kogsym::{goal_true, note};
use std::cell::RefCell;
use zkgroth16::circuit::{Bn254Driver, Circuit};
use zkgroth16::error::Error;
use zkgroth16::msm::msm_curve_addition;
use zkgroth16::proof::Proof;
use zkgroth16::verifier::{Verifier, VerifyingKey};
use zkgroth16::zksnark::ZkSnark;
use zkstd::circuit::prelude::{FieldAssignment, R1cs};
use zkstd::common::*;
use zkstd::matrix::DenseVectors;

type FA = FieldAssignment<Fr>;
type Cs = R1cs<Bn254Driver>;

fn s(n: &str) -> Fr {
    Fr::sym(n)
}
fn k(n: u64) -> Fr {
    Fr::from(n)
}
fn number(h: &str) -> Fr {
    let mut r = Fr::zero();
    for c in h.chars() {
        r = r * k(16) + k(c.to_digit(16).unwrap() as u64);
    }
    r
}
fn power(x: Fr, e: usize) -> Fr {
    let mut r = Fr::one();
    for _ in 0..e {
        r = r * x;
    }
    r
}
fn g1(d: Fr) -> G1Affine {
    (G1Affine::ADDITIVE_GENERATOR * d).into()
}
fn g2(d: Fr) -> G2Affine {
    (G2Affine::ADDITIVE_GENERATOR * d).into()
}

/// sum of multiples: scalars given, points arbitrary
fn msm(group: &str, nb: usize, ks: &[String]) {
    kogsym::set_flag("realmsm", true);
    let ks: Vec<Fr> = ks.iter().map(|h| number(h)).collect();
    let ds: Vec<Fr> = (0..nb).map(|j| s(&format!("d{}", j))).collect();
    let e = ds.iter().zip(ks.iter()).fold(Fr::zero(), |a, (d, k)| a + *d * *k);
    if group == "g1" {
        let b: Vec<G1Affine> = ds.iter().map(|d| g1(*d)).collect();
        goal_true("sum of the multiples", msm_curve_addition(&b, &ks) == G1Projective::from(g1(e)));
    } else {
        let b: Vec<G2Affine> = ds.iter().map(|d| g2(*d)).collect();
        goal_true("sum of the multiples", msm_curve_addition(&b, &ks) == G2Projective::from(g2(e)));
    }
}
/// identity among the bases
fn msm_id(nb: usize, pos: usize) {
    kogsym::set_flag("realmsm", true);
    let ks: Vec<Fr> = (0..nb).map(|i| k(0x1234567 + 77 * i as u64)).collect();
    let ds: Vec<Fr> = (0..nb).map(|j| if j == pos { Fr::zero() } else { s(&format!("d{}", j)) }).collect();
    let e = ds.iter().zip(ks.iter()).fold(Fr::zero(), |a, (d, k)| a + *d * *k);
    let b: Vec<G1Affine> = (0..nb).map(|j| if j == pos { G1Affine::ADDITIVE_IDENTITY } else { g1(ds[j]) }).collect();
    goal_true("sum with the identity", msm_curve_addition(&b, &ks) == G1Projective::from(g1(e)));
}

// ---------------------------------------------------------------- circuits
thread_local! {
    static WHICH: RefCell<(String, Vec<Fr>)> = RefCell::new((String::new(), vec![]));
}
/// every instance reads the shape from WHICH; the default instance has value zero everywhere
#[derive(Debug, Default)]
struct C {
    v: Vec<Fr>,
}
impl C {
    fn at(&self, i: usize) -> Fr {
        self.v.get(i).copied().unwrap_or(Fr::zero())
    }
}
impl Circuit for C {
    fn synthesize(&self, cs: &mut Cs) -> Result<(), Error> {
        let w = WHICH.with(|w| w.borrow().0.clone());
        let a = |i| self.at(i);
        match &w[..] {
            "empty" => {}
            "square" => {
                // one constraint, a public output
                let o = FA::instance(cs, a(0));
                let x = FA::witness(cs, a(1));
                cs.mul_gate(x.inner(), x.inner(), o.inner());
            }
            "private" => {
                let x = FA::witness(cs, a(0));
                let y = FA::mul(cs, &x, &x);
                FA::mul(cs, &y, &x);
            }
            "readme" => {
                let x = FA::instance(cs, a(0));
                let o = FA::instance(cs, a(1));
                let c = FA::constant(&k(5));
                let sym1 = FA::mul(cs, &x, &x);
                let y = FA::mul(cs, &sym1, &x);
                let sym2 = FA::add(cs, &y, &x);
                FA::enforce_eq(cs, &(&sym2 + &c), &o);
            }
            "five" => {
                let x = FA::instance(cs, a(0));
                let mut t = FA::witness(cs, a(1));
                for _ in 0..4 {
                    t = FA::mul(cs, &t, &x);
                }
                let o = FA::instance(cs, a(2));
                FA::enforce_eq(cs, &t, &o);
            }
            "inputs" => {
                let x = FA::instance(cs, a(0));
                let y = FA::instance(cs, a(1));
                let z = FA::instance(cs, a(2));
                FA::enforce_eq(cs, &(&x + &y), &z);
                let t = FA::mul(cs, &x, &y);
                let u = FA::witness(cs, a(3));
                FA::enforce_eq(cs, &t, &u);
                FA::enforce_eq_constant(cs, &(&t - &u), &Fr::zero());
            }
            _ => panic!("circuit"),
        }
        Ok(())
    }
}
/// satisfying values: public ones first in the order of allocation
fn values(w: &str) -> (Vec<Fr>, Vec<Fr>) {
    match w {
        "empty" => (vec![], vec![]),
        "square" => {
            let x = s("x");
            (vec![x * x, x], vec![x * x])
        }
        "private" => (vec![s("x")], vec![]),
        "readme" => {
            let x = s("x");
            let o = x * x * x + x + k(5);
            (vec![x, o], vec![x, o])
        }
        "five" => {
            let (x, y) = (s("x"), s("y"));
            let o = y * x * x * x * x;
            (vec![x, y, o], vec![x, o])
        }
        "inputs" => {
            let (x, y) = (s("x"), s("y"));
            (vec![x, y, x + y, x * y], vec![x, y, x + y])
        }
        _ => panic!("circuit"),
    }
}

fn complete(w: &str) {
    WHICH.with(|x| x.borrow_mut().0 = w.to_string());
    // trapdoors that happen to lie in the evaluation domain are excluded (for tau the setup has no Lagrange basis then)
    let m = {
        let mut cs = Cs::default();
        C::default().synthesize(&mut cs).unwrap();
        (cs.m() as usize).max(2).next_power_of_two()
    };
    for j in 1..8 {
        (power(s(&format!("rnd{}", j)), m) - Fr::one()).say("HYPN", "a trapdoor is not a root of unity of the domain");
    }
    kogsym::set_sym_random(true);
    let (mut prover, verifier) = match ZkSnark::setup::<C>(OsRng) {
        Ok(x) => x,
        Err(_) => {
            // only a trapdoor that happens to be zero
            note("EXCLUDED".to_string());
            return;
        }
    };
    let (v, public) = values(w);
    match prover.create_proof(&mut OsRng, C { v }) {
        Ok(proof) => goal_true("the honest proof verifies", verifier.verify(&proof, &public).is_ok()),
        Err(_) => note("EXCLUDED".to_string()),
    }
}

/// randomness that can be drawn a second time
#[derive(Clone)]
struct Tape(u64);
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&v[..n]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
/// the elements a function that draws from this tape will see
fn drawn(t: &Tape, from: usize, n: usize) -> Vec<Fr> {
    let mut t = t.clone();
    (0..n).map(|j| if kogsym::symbolic() { s(&format!("rnd{}", from + j)) } else { Fr::random(&mut t) }).collect()
}
/// comparison that leaves no decision behind: for facts about independent randomness
fn same<A: PartialEq>(a: &A, b: &A) -> bool {
    kogsym::set_flag("quiet", true);
    let r = a == b;
    kogsym::set_flag("quiet", false);
    r
}
fn pair(a: G1Affine, b: G2Affine) -> bn_254::Gt {
    bn_254::AteParing::multi_miller_loop(&[(a, bn_254::G2PairingAffine::from(b))]).final_exp()
}

/// the reference string of the setup: elements of the documented form for the trapdoors it drew
fn crs(w: &str) {
    WHICH.with(|x| x.borrow_mut().0 = w.to_string());
    let mut cs = Cs::default();
    C::default().synthesize(&mut cs).unwrap();
    let m = (cs.m() as usize).max(2).next_power_of_two();
    for j in 1..8 {
        (power(s(&format!("rnd{}", j)), m) - Fr::one()).say("HYPN", "a trapdoor is not a root of unity of the domain");
        s(&format!("rnd{}", j)).say("HYPN", "a trapdoor is not zero");
    }
    kogsym::set_sym_random(true);
    let t = Tape(77);
    let ts = drawn(&t, 1, 8);
    let (prover, verifier) = match ZkSnark::setup::<C>(t) {
        Ok(x) => x,
        Err(_) => {
            goal_true("setup succeeds for trapdoors other than zero", false);
            return;
        }
    };
    let p = &prover.params;
    let gen1 = G1Affine::ADDITIVE_GENERATOR;
    let gen2 = G2Affine::ADDITIVE_GENERATOR;
    // independent trapdoors
    for (n, a, b) in [("alpha and beta", p.vk.alpha_g1, p.vk.beta_g1), ("alpha and delta", p.vk.alpha_g1, p.vk.delta_g1), ("beta and delta", p.vk.beta_g1, p.vk.delta_g1), ("alpha and one", p.vk.alpha_g1, gen1), ("beta and one", p.vk.beta_g1, gen1), ("delta and one", p.vk.delta_g1, gen1)] {
        goal_true(&format!("distinct: {}", n), !same(&a, &b));
    }
    goal_true("distinct: gamma and delta differ", !same(&p.vk.gamma_g2, &p.vk.delta_g2));
    goal_true("distinct: gamma and beta differ", !same(&p.vk.gamma_g2, &p.vk.beta_g2));
    goal_true("distinct: gamma and one differ", !same(&p.vk.gamma_g2, &gen2));
    goal_true("distinct: gamma and alpha differ", !same(&pair(p.vk.alpha_g1, gen2), &pair(gen1, p.vk.gamma_g2)));
    let role1 = |e: &G1Affine| ts.iter().position(|x| same(&g1(*x), e));
    let role2 = |e: &G2Affine| ts.iter().position(|x| same(&g2(*x), e));
    let (ra, rb, rg, rd) = match (role1(&p.vk.alpha_g1), role1(&p.vk.beta_g1), role2(&p.vk.gamma_g2), role1(&p.vk.delta_g1)) {
        (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
        _ => {
            note("EVENT roles of the trapdoors".to_string());
            return;
        }
    };
    let (al, be, ga, de) = (ts[ra], ts[rb], ts[rg], ts[rd]);
    let di = de.invert().unwrap();
    let gi = ga.invert().unwrap();
    let z = |t: Fr| power(t, m) - Fr::one();
    let rt = match (0..8).find(|j| same(&g1(z(ts[*j]) * di), &p.h[0])) {
        Some(j) => j,
        None => {
            note("EVENT role of tau".to_string());
            return;
        }
    };
    goal_true("tau is a trapdoor of its own", ![ra, rb, rg, rd].contains(&rt));
    let tau = ts[rt];
    goal_true("alpha", p.vk.alpha_g1 == g1(al));
    goal_true("beta", p.vk.beta_g1 == g1(be) && p.vk.beta_g2 == g2(be));
    goal_true("gamma", p.vk.gamma_g2 == g2(ga));
    goal_true("delta", p.vk.delta_g1 == g1(de) && p.vk.delta_g2 == g2(de));
    goal_true("number of powers", p.h.len() == m - 1);
    for (j, h) in p.h.iter().enumerate() {
        goal_true("h", *h == g1(power(tau, j) * z(tau) * di));
    }
    // Lagrange basis of the domain at tau
    let mut om = Fr::ROOT_OF_UNITY;
    for _ in 0..(28 - m.trailing_zeros()) {
        om = om * om;
    }
    let mi = k(m as u64).invert().unwrap();
    let lag: Vec<Fr> = (0..m).map(|j| power(om, j) * z(tau) * mi * (tau - power(om, j)).invert().unwrap()).collect();
    let (l, aux) = (cs.l(), cs.m_l_1());
    let (mut u, mut v, mut wv) = (vec![Fr::zero(); l + aux], vec![Fr::zero(); l + aux], vec![Fr::zero(); l + aux]);
    let rows = matrices(&cs, l);
    for (mat, out) in [(&rows[0], &mut u), (&rows[1], &mut v), (&rows[2], &mut wv)] {
        for (j, row) in mat.iter().enumerate() {
            for (i, c) in row {
                out[*i] = out[*i] + lag[j] * *c;
            }
        }
    }
    goal_true("sizes", p.a.len() == l + aux && p.b_g1.len() == l + aux && p.b_g2.len() == l + aux && p.vk.ic.len() == l && p.l.len() == aux);
    for i in 0..l + aux {
        goal_true("a query", p.a[i] == g1(u[i]));
        goal_true("b query", p.b_g1[i] == g1(v[i]) && p.b_g2[i] == g2(v[i]));
        let e = be * u[i] + al * v[i] + wv[i];
        if i < l {
            goal_true("ic", p.vk.ic[i] == g1(e * gi));
        } else {
            goal_true("l query", p.l[i - l] == g1(e * di));
        }
    }
    let q = &verifier.vk;
    goal_true("prepared key", q.alpha_g1_beta_g2 == pair(g1(al), g2(be)) && q.ic.len() == l);
    for i in 0..l {
        goal_true("prepared ic", q.ic[i] == p.vk.ic[i]);
    }
}
/// rows of the three matrices, read off by evaluation at unit vectors
fn matrices(cs: &Cs, l: usize) -> Vec<Vec<Vec<(usize, Fr)>>> {
    let n = l + cs.m_l_1();
    let unit = |from: usize, len: usize, i: usize| DenseVectors::new((from..from + len).map(|j| if j == i { Fr::one() } else { Fr::zero() }).collect());
    let (a, b, c) = cs.matrices();
    [a, b, c].iter().map(|m| m.0.iter().map(|r| (0..n).map(|i| (i, r.evaluate(&unit(0, l, i), &unit(l, n - l, i)))).collect()).collect()).collect()
}

/// two proofs of the same statement hide the witness with randomness of their own
fn fresh(w: &str) {
    WHICH.with(|x| x.borrow_mut().0 = w.to_string());
    for j in 1..14 {
        s(&format!("rnd{}", j)).say("HYPN", "randomness is not zero");
        (power(s(&format!("rnd{}", j)), 8) - Fr::one()).say("HYPN", "randomness is not a root of unity");
    }
    kogsym::set_sym_random(true);
    let (mut prover, _v) = ZkSnark::setup::<C>(OsRng).ok().unwrap();
    let (v, _public) = values(w);
    let p1 = prover.create_proof(&mut OsRng, C { v: v.clone() }).ok().unwrap();
    let p2 = prover.create_proof(&mut OsRng, C { v: v.clone() }).ok().unwrap();
    let gen1 = G1Affine::ADDITIVE_GENERATOR;
    let gen2 = G2Affine::ADDITIVE_GENERATOR;
    goal_true("distinct: A is blinded", !same(&p1.a, &p2.a));
    goal_true("distinct: B is blinded", !same(&p1.b, &p2.b));
    goal_true("distinct: C is blinded", !same(&p1.c, &p2.c));
    // r1 - r2 and s1 - s2 are unrelated: neither equal nor opposite
    let (da, db) = (p1.a - p2.a, p1.b - p2.b);
    let (x, y) = (pair(da.into(), gen2), pair(gen1, db.into()));
    goal_true("distinct: A and B use different randomness", !same(&x, &y));
    goal_true("distinct: A and B use unrelated randomness", !same(&x, &pair(gen1, (-db).into())));
    // and the proof differs from one with r = 0 or s = 0
    let pr = &prover.params;
    let mut cs = Cs::default();
    C { v }.synthesize(&mut cs).unwrap();
    let (mut a0, mut b0) = (G1Projective::from(pr.vk.alpha_g1), G2Projective::from(pr.vk.beta_g2));
    for (i, x) in cs.x().iter().chain(cs.w().iter()).enumerate() {
        a0 += pr.a[i] * *x;
        b0 += pr.b_g2[i] * *x;
    }
    goal_true("distinct: A is not the bare value", !same(&G1Projective::from(p1.a), &a0));
    goal_true("distinct: B is not the bare value", !same(&G2Projective::from(p1.b), &b0));
}

fn verify(n: usize, m: usize) {
    let f = |x: &str| s(x);
    let (al, be, ga, de) = (f("al"), f("be"), f("ga"), f("de"));
    let ic: Vec<Fr> = (0..n + 1).map(|i| f(&format!("ic{}", i))).collect();
    let (a, b, c) = (f("a"), f("b"), f("c"));
    let xs: Vec<Fr> = (0..m).map(|i| f(&format!("x{}", i))).collect();
    let vk = VerifyingKey { alpha_g1: g1(al), beta_g1: g1(be), beta_g2: g2(be), gamma_g2: g2(ga), delta_g1: g1(de), delta_g2: g2(de), ic: ic.iter().map(|x| g1(*x)).collect() };
    let v = Verifier { vk: vk.prepare() };
    let p = Proof { a: g1(a), b: g2(b), c: g1(c) };
    let r = v.verify(&p, &xs);
    if n != m {
        let good = matches!(r, Err(Error::InconsistentPublicInputsLen { expected, provided }) if expected == n && provided == m);
        goal_true("wrong number of public inputs is an error", good);
        return;
    }
    let mut acc = ic[0];
    for i in 0..n {
        acc = acc + ic[i + 1] * xs[i];
    }
    let e = a * b - al * be - acc * ga - c * de;
    match r {
        Ok(()) => e.say("GOAL0", "accepted: the equation holds"),
        Err(Error::ProofVerificationError) => e.say("GOALN", "rejected: the equation does not hold"),
        Err(_) => goal_true("no other error", false),
    }
}
/// an accepted proof is rejected for any other value of one public input, given that its element of the key is not the identity
fn tamper(n: usize, i: usize) {
    let f = |x: &str| s(x);
    let (al, be, ga, de) = (f("al"), f("be"), f("ga"), f("de"));
    let ic: Vec<Fr> = (0..n + 1).map(|i| f(&format!("ic{}", i))).collect();
    let (b, c) = (f("b"), f("c"));
    let xs: Vec<Fr> = (0..n).map(|i| f(&format!("x{}", i))).collect();
    let y = f("y");
    b.say("HYPN", "b");
    let mut acc = ic[0];
    for i in 0..n {
        acc = acc + ic[i + 1] * xs[i];
    }
    let a = (al * be + acc * ga + c * de) * b.invert().unwrap();
    ic[i + 1].say("HYPN", "element of the key");
    ga.say("HYPN", "gamma");
    (y - xs[i]).say("HYPN", "another value");
    let vk = VerifyingKey { alpha_g1: g1(al), beta_g1: g1(be), beta_g2: g2(be), gamma_g2: g2(ga), delta_g1: g1(de), delta_g2: g2(de), ic: ic.iter().map(|x| g1(*x)).collect() };
    let v = Verifier { vk: vk.prepare() };
    let p = Proof { a: g1(a), b: g2(b), c: g1(c) };
    goal_true("accepted", v.verify(&p, &xs).is_ok());
    let mut ys = xs.clone();
    ys[i] = y;
    goal_true("rejected", v.verify(&p, &ys).is_err());
}

/// the same for one element of the proof, given that its partner in the equation is not the identity
fn tamperp(n: usize, which: &str) {
    let (al, be, ga, de) = (s("al"), s("be"), s("ga"), s("de"));
    let ic: Vec<Fr> = (0..n + 1).map(|i| s(&format!("ic{}", i))).collect();
    let (b, c, y) = (s("b"), s("c"), s("y"));
    let xs: Vec<Fr> = (0..n).map(|i| s(&format!("x{}", i))).collect();
    b.say("HYPN", "b");
    let mut acc = ic[0];
    for i in 0..n {
        acc = acc + ic[i + 1] * xs[i];
    }
    let a = (al * be + acc * ga + c * de) * b.invert().unwrap();
    let (mut a1, mut b1, mut c1) = (a, b, c);
    match which {
        "a" => {
            (y - a).say("HYPN", "another value");
            a1 = y;
        }
        "b" => {
            a.say("HYPN", "A is not the identity");
            (y - b).say("HYPN", "another value");
            b1 = y;
        }
        _ => {
            de.say("HYPN", "delta");
            (y - c).say("HYPN", "another value");
            c1 = y;
        }
    }
    let vk = VerifyingKey { alpha_g1: g1(al), beta_g1: g1(be), beta_g2: g2(be), gamma_g2: g2(ga), delta_g1: g1(de), delta_g2: g2(de), ic: ic.iter().map(|x| g1(*x)).collect() };
    let v = Verifier { vk: vk.prepare() };
    goal_true("accepted", v.verify(&Proof { a: g1(a), b: g2(b), c: g1(c) }, &xs).is_ok());
    goal_true("rejected", v.verify(&Proof { a: g1(a1), b: g2(b1), c: g1(c1) }, &xs).is_err());
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    kogsym::run(move || {
        kogsym::set_flag("group", true);
        let g = |i: usize| a.get(i).cloned().unwrap_or_default();
        let u = |i: usize| g(i).parse::<usize>().unwrap_or(0);
        match &a[1][..] {
            "msm" => msm(&g(2), u(3), &a[4..]),
            "msm_id" => msm_id(u(2), u(3)),
            "crs" => crs(&g(2)),
            "fresh" => fresh(&g(2)),
            "complete" => complete(&g(2)),
            "verify" => verify(u(2), u(3)),
            "tamperp" => tamperp(u(2), &g(3)),
            "tamper" => tamper(u(2), u(3)),
            _ => panic!("job"),
        }
        note("DONE".to_string());
    });
}
