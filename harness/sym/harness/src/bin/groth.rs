//! polynomials, transforms and the Groth16 scheme
use bn_254::Fr;
use kogsym::{goal_true, note};
use zkgroth16::fft::Fft;
use zkgroth16::poly::{Coefficients, PointsValue};
use zkstd::common::*;

fn s(n: &str) -> Fr {
    Fr::sym(n)
}
fn k(n: u64) -> Fr {
    Fr::from(n)
}
fn zero(label: &str, a: Fr) {
    a.say("GOAL0", label)
}
fn syms(p: &str, n: usize) -> Vec<Fr> {
    (0..n).map(|i| s(&format!("{}{}", p, i))).collect()
}
fn at(v: &[Fr], i: usize) -> Fr {
    v.get(i).copied().unwrap_or(Fr::zero())
}
/// value of a polynomial, lowest coefficient first
fn ev(v: &[Fr], x: Fr) -> Fr {
    let mut r = Fr::zero();
    for c in v.iter().rev() {
        r = r * x + *c;
    }
    r
}
fn power(x: Fr, e: usize) -> Fr {
    let mut r = Fr::one();
    for _ in 0..e {
        r = r * x;
    }
    r
}
/// the 2^k-th root of unity the transform is defined by
fn root(kk: usize) -> Fr {
    let mut w = Fr::ROOT_OF_UNITY;
    for _ in 0..Fr::S - kk {
        w = w * w;
    }
    let n = 1 << kk;
    goal_true("the root has order 2^k", power(w, n) == Fr::one() && power(w, n / 2) == Fr::zero() - Fr::one());
    w
}
fn gen(n: usize) -> Fr {
    let g = Fr::MULTIPLICATIVE_GENERATOR;
    goal_true("the coset is not the domain", power(g, n) != Fr::one() && g != Fr::zero());
    g
}
fn trimmed(v: &[Fr]) {
    if let Some(l) = v.last() {
        l.say("GOALN", "no leading zero coefficient");
    }
}

fn fft(kk: usize, len: usize, mode: &str) {
    let n = 1usize << kk;
    let f = Fft::<Fr>::new(kk);
    let w = root(kk);
    let g = gen(n);
    let c = syms("c", len);
    let dom = |shift: Fr| (0..n).map(|i| shift * power(w, i)).collect::<Vec<_>>();
    let evals = |v: &[Fr], shift: Fr, p: &PointsValue<Fr>| {
        goal_true("number of values", p.0.len() == n);
        for (i, x) in dom(shift).into_iter().enumerate() {
            zero(&format!("value at point {}", i), at(&p.0, i) - ev(v, x));
        }
    };
    let interp = |v: &[Fr], shift: Fr, r: &Coefficients<Fr>| {
        goal_true("number of coefficients", r.0.len() <= n);
        trimmed(&r.0);
        for (i, x) in dom(shift).into_iter().enumerate() {
            zero(&format!("interpolates point {}", i), at(v, i) - ev(&r.0, x));
        }
    };
    match mode {
        "dft" => evals(&c, Fr::one(), &f.dft(Coefficients(c.clone()))),
        "coset_dft" => evals(&c, g, &f.coset_dft(Coefficients(c.clone()))),
        "idft" => interp(&c, Fr::one(), &f.idft(PointsValue(c.clone()))),
        "coset_idft" => interp(&c, g, &f.coset_idft(PointsValue(c.clone()))),
        "round" => {
            let r = f.idft(f.dft(Coefficients(c.clone())));
            let q = f.coset_idft(f.coset_dft(Coefficients(c.clone())));
            for i in 0..n.max(r.0.len()).max(q.0.len()) {
                zero("round trip", at(&r.0, i) - at(&c, i));
                zero("round trip on the coset", at(&q.0, i) - at(&c, i));
            }
        }
        "z" => {
            let t = s("t");
            zero("vanishing polynomial", f.z(&t) - (power(t, n) - Fr::one()));
            for x in dom(Fr::one()) {
                zero("vanishes on the domain", f.z(&x));
            }
            zero("on the coset", f.z_on_coset() - (power(g, n) - Fr::one()));
            let p = f.divide_by_z_on_coset(PointsValue(c.clone()));
            goal_true("number of values", p.0.len() == len);
            for i in 0..len {
                for x in dom(g).into_iter().take(1) {
                    zero("division by the vanishing polynomial", at(&p.0, i) * (power(x, n) - Fr::one()) - c[i]);
                }
            }
        }
        "mul" => {
            // product of polynomials that fits in the domain
            let b = syms("b", n + 1 - len);
            let r = f.idft(&f.dft(Coefficients(c.clone())) * &f.dft(Coefficients(b.clone())));
            for i in 0..n {
                let mut t = Fr::zero();
                for j in 0..=i {
                    t = t + at(&c, j) * at(&b, i - j);
                }
                zero("product", at(&r.0, i) - t);
            }
            goal_true("length of the product", r.0.len() <= n);
        }
        _ => panic!("job"),
    }
}

fn poly(op: &str, la: usize, lb: usize) {
    let (a, b) = (syms("a", la), syms("b", lb));
    let x = s("x");
    let same = |r: &[Fr], e: &dyn Fn(usize) -> Fr, n: usize| {
        for i in 0..n.max(r.len()) {
            zero("coefficient", at(r, i) - e(i));
        }
    };
    let n = la.max(lb);
    let (ca, cb) = (Coefficients(a.clone()), Coefficients(b.clone()));
    let (pa, pb) = (PointsValue(a.clone()), PointsValue(b.clone()));
    match op {
        "add" => {
            for r in [&ca + &cb, ca.clone() + cb.clone()] {
                same(&r.0, &|i| at(&a, i) + at(&b, i), n);
                trimmed(&r.0);
            }
        }
        "sub" => {
            let r = ca - cb;
            same(&r.0, &|i| at(&a, i) - at(&b, i), n);
            trimmed(&r.0);
        }
        "sum" => {
            let c = syms("c", 2);
            let r: Coefficients<Fr> = vec![ca, cb, Coefficients(c.clone())].into_iter().sum();
            same(&r.0, &|i| at(&a, i) + at(&b, i) + at(&c, i), n.max(2));
            let e: Coefficients<Fr> = vec![].into_iter().sum();
            goal_true("empty sum", e.0.is_empty());
        }
        "scale" => {
            let r = &ca * &x;
            same(&r.0, &|i| at(&a, i) * x, n);
            trimmed(&r.0);
        }
        "psub" => {
            let r = &pa - &pb;
            goal_true("length", r.0.len() == n);
            same(&r.0, &|i| at(&a, i) - at(&b, i), n);
        }
        "pmul" => {
            let r = &pa * &pb;
            goal_true("length", r.0.len() == n);
            same(&r.0, &|i| at(&a, i) * at(&b, i), n);
            for i in 0..r.0.len() {
                zero("index", r[i] - r.0[i]);
            }
        }
        "format" => {
            let c = Coefficients::new(a.clone());
            same(&c.0, &|i| at(&a, i), n);
            trimmed(&c.0);
            let p = PointsValue::new(a.clone());
            goal_true("length of the values", p.0.len() == la);
            same(&p.0, &|i| at(&a, i), n);
            let p = p.format_degree();
            same(&p.0, &|i| at(&a, i), n);
            trimmed(&p.0);
            let d = c.degree();
            goal_true("degree", d == if c.0.is_empty() { 0 } else { c.0.len() - 1 });
            goal_true("zero", c.is_zero() == c.0.is_empty() && ca.is_zero() == c.0.is_empty());
        }
        "evaluate" => zero("value", ca.evaluate(&x) - ev(&a, x)),
        "divide" => {
            let y = s("y");
            let q = ca.divide(&x);
            goal_true("length of the quotient", q.0.len() == la.max(1) - 1);
            zero("division", ev(&q.0, y) * (y - x) + ev(&a, x) - ev(&a, y));
        }
        "t" => zero("t", Coefficients::<Fr>::t(la as u64, x) - (power(x, la) - Fr::one())),
        "blind" => {
            kogsym::set_sym_random(true);
            let mut r = ca.clone();
            r.blind(lb, &mut OsRng);
            kogsym::set_sym_random(false);
            goal_true("length", r.0.len() == la + lb + 1);
            // the last coefficients are the blinding factors
            let bl: Vec<Fr> = (0..=lb).map(|i| at(&r.0, la + i)).collect();
            zero("multiple of the vanishing polynomial added", ev(&r.0, x) - ev(&a, x) - (power(x, la) - Fr::one()) * ev(&bl, x));
        }
        "setup" => {
            kogsym::set_sym_random(true);
            let (r, d) = Coefficients::<Fr>::setup(la, OsRng);
            kogsym::set_sym_random(false);
            goal_true("length", d.len() == 1 << la);
            for i in 0..d.len() {
                zero("power", d[i] - power(r, i));
            }
        }
        "commit" => {
            let d = (0..la + lb).map(|i| power(x, i)).collect::<Vec<_>>();
            zero("commitment", ca.commit(&d) - ev(&a, x) * power(x, lb));
        }
        _ => panic!("job"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    kogsym::run(move || {
        let g = |i: usize| a.get(i).cloned().unwrap_or_default();
        let u = |i: usize| g(i).parse::<usize>().unwrap_or(0);
        match &a[1][..] {
            "fft" => fft(u(2), u(3), &g(4)),
            "poly" => poly(&g(2), u(3), u(4)),
            _ => panic!("job"),
        }
        note("DONE".to_string());
    });
}
