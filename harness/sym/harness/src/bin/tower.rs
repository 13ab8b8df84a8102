//! extension fields of BN254 against schoolbook arithmetic in Fq[u][w], u^2 = -1, w^d = 9 + u
use bn_254::{Fq, Fq12, Fq2, Fq6, Gt};
use kogsym::{goal_true, note};
use zkstd::common::*;

type C = [Fq; 2];
fn z() -> C {
    [Fq::zero(), Fq::zero()]
}
fn cadd(a: C, b: C) -> C {
    [a[0] + b[0], a[1] + b[1]]
}
fn csub(a: C, b: C) -> C {
    [a[0] - b[0], a[1] - b[1]]
}
fn cmul(a: C, b: C) -> C {
    [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
}
fn conj(a: C) -> C {
    [a[0], Fq::zero() - a[1]]
}
fn nine(a: Fq) -> Fq {
    let b = a + a;
    let b = b + b;
    let b = b + b;
    b + a
}
fn xi(a: C) -> C {
    [nine(a[0]) - a[1], nine(a[1]) + a[0]]
}
fn pmul(a: &[C], b: &[C]) -> Vec<C> {
    let d = a.len();
    let mut r = vec![z(); d];
    for i in 0..d {
        for j in 0..d {
            let t = cmul(a[i], b[j]);
            r[(i + j) % d] = cadd(r[(i + j) % d], if i + j >= d { if d == 1 { unreachable!() } else { xi(t) } } else { t });
        }
    }
    r
}
fn one(d: usize) -> Vec<C> {
    let mut r = vec![z(); d];
    r[0][0] = Fq::one();
    r
}
/// (9+u)^((p-1)/6)
fn gamma() -> C {
    let mut e = Fq::SYM_P;
    e[0] -= 1;
    let mut rem = 0u128;
    for i in (0..4).rev() {
        let t = (rem << 64) | e[i] as u128;
        e[i] = (t / 6) as u64;
        rem = t % 6;
    }
    assert!(rem == 0);
    let x = xi([Fq::one(), Fq::zero()]);
    let mut r = [Fq::one(), Fq::zero()];
    for i in (0..256).rev() {
        r = cmul(r, r);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = cmul(r, x);
        }
    }
    r
}
/// x^(p^k) on coordinates in the power basis of w, w^6 = xi; step is 1 for w itself, 2 for v = w^2
fn frob(a: &[C], k: usize, step: usize) -> Vec<C> {
    let g = gamma();
    let mut gk = [Fq::one(), Fq::zero()];
    for _ in 0..k {
        gk = cmul(g, conj(gk));
    }
    let mut w = [Fq::one(), Fq::zero()];
    let mut s = [Fq::one(), Fq::zero()];
    for _ in 0..step {
        s = cmul(s, gk);
    }
    let mut out = vec![];
    for c in a {
        let c = if k % 2 == 1 { conj(*c) } else { *c };
        out.push(cmul(c, w));
        w = cmul(w, s);
    }
    out
}

trait Tw: Copy {
    fn sy(n: &str) -> Self;
    fn co(&self) -> Vec<C>;
    fn of(c: &[C]) -> Self;
    const STEP: usize;
}
impl Tw for Fq2 {
    fn sy(n: &str) -> Self {
        Fq2([Fq::sym(&format!("{}0_0", n)), Fq::sym(&format!("{}0_1", n))])
    }
    fn co(&self) -> Vec<C> {
        vec![self.0]
    }
    fn of(c: &[C]) -> Self {
        Fq2(c[0])
    }
    const STEP: usize = 1;
}
impl Tw for Fq6 {
    fn sy(n: &str) -> Self {
        Self::of(&(0..3).map(|i| [Fq::sym(&format!("{}{}_0", n, i)), Fq::sym(&format!("{}{}_1", n, i))]).collect::<Vec<_>>())
    }
    fn co(&self) -> Vec<C> {
        self.0.iter().map(|x| x.0).collect()
    }
    fn of(c: &[C]) -> Self {
        Fq6([Fq2(c[0]), Fq2(c[1]), Fq2(c[2])])
    }
    const STEP: usize = 2;
}
impl Tw for Fq12 {
    fn sy(n: &str) -> Self {
        Self::of(&(0..6).map(|i| [Fq::sym(&format!("{}{}_0", n, i)), Fq::sym(&format!("{}{}_1", n, i))]).collect::<Vec<_>>())
    }
    fn co(&self) -> Vec<C> {
        (0..6).map(|i| self.0[i % 2].0[i / 2].0).collect()
    }
    fn of(c: &[C]) -> Self {
        Fq12([Fq6::of(&[c[0], c[2], c[4]]), Fq6::of(&[c[1], c[3], c[5]])])
    }
    const STEP: usize = 1;
}
fn same(a: &[C], b: &[C], l: &str) {
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        for k in 0..2 {
            (x[k] - y[k]).say("GOAL0", &format!("{} coordinate {}.{}", l, i, k));
        }
    }
}
/// coordinates in the nested order of the tower
fn at(c: &[C], i: usize) -> C {
    if c.len() == 6 {
        c[2 * (i % 3) + i / 3]
    } else {
        c[i]
    }
}
fn zipw(a: &[C], b: &[C], f: fn(C, C) -> C) -> Vec<C> {
    a.iter().zip(b.iter()).map(|(x, y)| f(*x, *y)).collect()
}

macro_rules! common {
    ($f:ident, $t:ident) => {
        fn $f(job: &str) {
            let x = <$t as Tw>::sy("x");
            let y = <$t as Tw>::sy("y");
            let (cx, cy) = (x.co(), y.co());
            let d = cx.len();
            let add = || zipw(&cx, &cy, cadd);
            let sub = || zipw(&cx, &cy, csub);
            let mul = || pmul(&cx, &cy);
            let neg = || zipw(&vec![z(); d], &cx, csub);
            let mut m = x;
            match job {
                "x+x" => same(&(x + y).co(), &add(), "sum"),
                "&x+&x" => same(&(&x + &y).co(), &add(), "sum"),
                "x+&x" => same(&(x + &y).co(), &add(), "sum"),
                "&x+x" => same(&(&x + y).co(), &add(), "sum"),
                "x+=x" => { m += y; same(&m.co(), &add(), "sum") }
                "x+=&x" => { m += &y; same(&m.co(), &add(), "sum") }
                "x-x" => same(&(x - y).co(), &sub(), "difference"),
                "&x-&x" => same(&(&x - &y).co(), &sub(), "difference"),
                "x-&x" => same(&(x - &y).co(), &sub(), "difference"),
                "&x-x" => same(&(&x - y).co(), &sub(), "difference"),
                "x-=x" => { m -= y; same(&m.co(), &sub(), "difference") }
                "x-=&x" => { m -= &y; same(&m.co(), &sub(), "difference") }
                "x*x" => same(&(x * y).co(), &mul(), "product"),
                "&x*&x" => same(&(&x * &y).co(), &mul(), "product"),
                "x*&x" => same(&(x * &y).co(), &mul(), "product"),
                "x*=x" => { m *= y; same(&m.co(), &mul(), "product") }
                "x*=&x" => { m *= &y; same(&m.co(), &mul(), "product") }
                "-x" => same(&(-x).co(), &neg(), "negation"),
                "double" => { same(&x.double().co(), &zipw(&cx, &cx, cadd), "double"); m.double_assign(); same(&m.co(), &zipw(&cx, &cx, cadd), "double_assign") }
                "square" => { same(&x.square().co(), &pmul(&cx, &cx), "square"); m.square_assign(); same(&m.co(), &pmul(&cx, &cx), "square_assign") }
                "consts" => {
                    goal_true("zero", <$t>::zero().co() == vec![z(); d] && <$t as IntGroup>::zero().co() == vec![z(); d] && <$t as Group>::ADDITIVE_IDENTITY.co() == vec![z(); d]);
                    goal_true("one", <$t>::one().co() == one(d) && <$t as Ring>::one().co() == one(d) && <$t as Ring>::MULTIPLICATIVE_IDENTITY.co() == one(d));
                }
                "eq" => {
                    let r = x == y;
                    let mut w = true;
                    'o: for i in 0..d { for k in 0..2 { if at(&cx, i)[k] != at(&cy, i)[k] { w = false; break 'o; } } }
                    goal_true("equality", r == w);
                    goal_true("reflexive", x == x);
                }
                "is_zero" => {
                    let r = x.is_zero();
                    let mut w = true;
                    'o: for i in 0..d { for k in 0..2 { if !at(&cx, i)[k].is_zero() { w = false; break 'o; } } }
                    goal_true("is_zero", r == w);
                }
                "inv" => {
                    kogsym::set_flag("cut_fq2inv", d == 3);
                    kogsym::set_flag("cut_fq6inv", d == 6);
                    norm_nonzero(&cx);
                    match Group::invert(x) {
                        Some(r) => same(&pmul(&r.co(), &cx), &one(d), "x times its inverse"),
                        None => goal_true("nonzero elements are invertible", false),
                    }
                }
                "div" => {
                    kogsym::set_flag("cut_fq2inv", d == 3);
                    kogsym::set_flag("cut_fq6inv", d == 6);
                    norm_nonzero(&cy);
                    let q = x / y;
                    m /= y;
                    // q = x * inverse(y): the inverse is computed again, with the same symbols below it
                    let i = Group::invert(y).unwrap();
                    same(&q.co(), &pmul(&cx, &i.co()), "quotient");
                    same(&m.co(), &pmul(&cx, &i.co()), "quotient assigned");
                }
                "inv0" => {
                    goal_true("zero has no inverse", Group::invert(<$t>::zero()).is_none());
                    goal_true("one is its own inverse", Group::invert(<$t>::one()).map_or(false, |r| r.co() == one(d)));
                }
                _ => other(job),
            }
        }
    };
}
/// hypothesis: not zero; for Fq2 stated as its norm, since -1 is not a square
fn norm_nonzero(c: &[C]) {
    if c.len() == 1 {
        (c[0][0] * c[0][0] + c[0][1] * c[0][1]).say("HYPN", "nonzero");
    }
}
common!(f2, Fq2);
common!(f6, Fq6);
common!(f12, Fq12);

fn sparse(n: usize, at: &[(usize, C)]) -> Vec<C> {
    let mut r = vec![z(); n];
    for (i, c) in at {
        r[*i] = *c;
    }
    r
}
fn other(job: &str) {
    let (a2, a6, a12) = (Fq2::sy("x"), Fq6::sy("x"), Fq12::sy("x"));
    let (c0, c1, c2) = (Fq2::sy("a"), Fq2::sy("b"), Fq2::sy("c"));
    let g = |a: &Gt| a.0.co();
    let b12 = Fq12::sy("y");
    let cj = || a12.co().iter().enumerate().map(|(i, c)| if i % 2 == 1 { csub(z(), *c) } else { *c }).collect::<Vec<_>>();
    let w: Vec<&str> = job.split(':').collect();
    match w[0] {
        "nonres2" => same(&a2.mul_by_nonres().co(), &[xi(a2.0)], "times xi"),
        "nonres6" => same(&a6.mul_by_nonres().co(), &pmul(&a6.co(), &sparse(3, &[(1, [Fq::one(), Fq::zero()])])), "times v"),
        "by1" => same(&a6.mul_by_1(c1).co(), &pmul(&a6.co(), &sparse(3, &[(1, c1.0)])), "mul_by_1"),
        "by01" => same(&a6.mul_by_01(c0, c1).co(), &pmul(&a6.co(), &sparse(3, &[(0, c0.0), (1, c1.0)])), "mul_by_01"),
        "by034" => same(&a12.mul_by_034(c0, c1, c2).co(), &pmul(&a12.co(), &sparse(6, &[(0, c0.0), (1, c1.0), (3, c2.0)])), "mul_by_034"),
        "conj2" => same(&a2.conjugate().co(), &[conj(a2.0)], "conjugate"),
        "conj12" => {
            same(&a12.conjugate().co(), &cj(), "conjugate");
            same(&a12.conjugate().co(), &frob(&a12.co(), 6, 1), "conjugate is the p^6 power");
        }
        "frob2" => { let k: usize = w[1].parse().unwrap(); same(&a2.frobenius_maps(k).co(), &frob(&a2.co(), k, 1), "frobenius_maps"); if k == 1 { same(&a2.frobenius_map().co(), &frob(&a2.co(), 1, 1), "frobenius_map") } }
        "frob6" => { let k: usize = w[1].parse().unwrap(); same(&a6.frobenius_maps(k).co(), &frob(&a6.co(), k, 2), "frobenius_maps"); if k == 1 { same(&a6.frobenius_map().co(), &frob(&a6.co(), 1, 2), "frobenius_map") } }
        "frob12" => { let k: usize = w[1].parse().unwrap(); same(&a12.frobenius_maps(k).co(), &frob(&a12.co(), k, 1), "frobenius_maps"); if k == 1 { same(&a12.frobenius_map().co(), &frob(&a12.co(), 1, 1), "frobenius_map") } }
        // the model itself: gamma^6 = xi^(p-1), so w -> gamma w is compatible with w^6 = xi and conjugation
        "model" => {
            let g = gamma();
            let g2 = cmul(g, g);
            let g6 = cmul(cmul(g2, g2), g2);
            let x = xi([Fq::one(), Fq::zero()]);
            goal_true("w^p", cmul(g6, x) == conj(x));
        }
        // the target group, written additively
        "gt" => {
            let (x, y) = (Gt(a12), Gt(b12));
            let mul = pmul(&a12.co(), &b12.co());
            let ycj: Vec<C> = b12.co().iter().enumerate().map(|(i, c)| if i % 2 == 1 { csub(z(), *c) } else { *c }).collect();
            let dif = pmul(&a12.co(), &ycj);
            match w[1] {
                "x+x" => same(&g(&(x + y)), &mul, "sum"),
                "&x+&x" => same(&g(&(&x + &y)), &mul, "sum"),
                "x+&x" => same(&g(&(x + &y)), &mul, "sum"),
                "&x+x" => same(&g(&(&x + y)), &mul, "sum"),
                "x+=x" => { let mut m = x; m += y; same(&g(&m), &mul, "sum") }
                "x+=&x" => { let mut m = x; m += &y; same(&g(&m), &mul, "sum") }
                "x-x" => same(&g(&(x - y)), &dif, "difference"),
                "&x-&x" => same(&g(&(&x - &y)), &dif, "difference"),
                "x-&x" => same(&g(&(x - &y)), &dif, "difference"),
                "&x-x" => same(&g(&(&x - y)), &dif, "difference"),
                "x-=x" => { let mut m = x; m -= y; same(&g(&m), &dif, "difference") }
                "x-=&x" => { let mut m = x; m -= &y; same(&g(&m), &dif, "difference") }
                "-x" => { same(&g(&-x), &cj(), "negation"); same(&g(&-&x), &cj(), "negation") }
                "x*x" => { let mut m = x; m *= y; same(&g(&(x * y)), &mul, "product"); same(&g(&m), &mul, "product") }
                "double" => same(&g(&x.double()), &pmul(&a12.co(), &a12.co()), "double"),
                "eq" => {
                    let r = x == y;
                    let mut e = true;
                    let (cx, cy) = (a12.co(), b12.co());
                    'o: for i in 0..6 { for k in 0..2 { if at(&cx, i)[k] != at(&cy, i)[k] { e = false; break 'o; } } }
                    goal_true("equality", r == e);
                }
                "id" => goal_true("identity", g(&Gt::ADDITIVE_IDENTITY) == one(6)),
                _ => panic!("unknown job"),
            }
        }
        _ => panic!("unknown job"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (job, f) = (a[1].clone(), a.get(2).cloned().unwrap_or_default());
    kogsym::run(move || {
        match &f[..] {
            "fq2" => f2(&job),
            "fq6" => f6(&job),
            "fq12" => f12(&job),
            _ => other(&job),
        }
        note("DONE".to_string());
    });
}
