//! twisted Edwards arithmetic (a = -1) on the curve of zkstd's tests, which instantiates the crate's macros
#[path = "/repo/zkstd/tests/jubjub.rs"]
#[allow(dead_code, unused_imports)]
mod jj;
use jj::jubjub_curve::{BlsScalar as F, JubjubAffine as A, JubjubExtended as P};
use kogsym::{goal_true, note};
use zkstd::arithmetic::edwards::*;
use zkstd::common::*;

struct Pt {
    x: F,
    y: F,
    a: A,
    p: P,
}
/// e: (x z, y z, x y z, z), a: affine, i: identity
fn pt(n: &str, kind: char) -> Pt {
    if kind == 'i' {
        return Pt { x: F::zero(), y: F::one(), a: A::ADDITIVE_IDENTITY, p: P::ADDITIVE_IDENTITY };
    }
    let v = |s: &str| F::sym(&format!("{}{}", s, n));
    let (x, y) = (v("x"), v("y"));
    // -1/d is not a square
    (F::one() + A::PARAM_D * y * y).say("HYPN", "1 + d y^2");
    (y * y - x * x - F::one() - A::PARAM_D * x * x * y * y).say("HYP0", "curve");
    let a = A::from_raw_unchecked(x, y);
    if kind == 'a' {
        return Pt { x, y, a, p: P::new(x, y, x * y, F::one()) };
    }
    let z = v("z");
    z.say("HYPN", "projective");
    Pt { x, y, a, p: P::new(x * z, y * z, x * y * z, z) }
}
fn is(r: P, x: F, y: F, l: &str) {
    let z = r.get_z();
    z.say("GOALN", l);
    (r.get_x() - x * z).say("GOAL0", l);
    (r.get_y() - y * z).say("GOAL0", l);
    (r.get_t() * z - r.get_x() * r.get_y()).say("GOAL0", "auxiliary coordinate");
}
fn sum(r: P, l: &Pt, lx: F, ly: F, k: &Pt, kx: F, ky: F) {
    let _ = (l, k);
    let d = A::PARAM_D * lx * ly * kx * ky;
    let (p, m) = (F::one() + d, F::one() - d);
    // complete addition law: d is not a square
    p.say("HYPN", "1 + d x1 x2 y1 y2");
    m.say("HYPN", "1 - d x1 x2 y1 y2");
    let z = r.get_z();
    z.say("GOALN", "z of the sum");
    (r.get_x() * p - (lx * ky + kx * ly) * z).say("GOAL0", "x of the sum");
    (r.get_y() * m - (ly * ky + lx * kx) * z).say("GOAL0", "y of the sum");
    (r.get_t() * z - r.get_x() * r.get_y()).say("GOAL0", "auxiliary coordinate");
}
fn job(job: &str, ks: &str) {
    let c: Vec<char> = ks.chars().collect();
    let l = pt("1", c[0]);
    let k = pt("2", if c.len() > 1 { c[1] } else { 'i' });
    let add = |r: P| sum(r, &l, l.x, l.y, &k, k.x, k.y);
    let sub = |r: P| sum(r, &l, l.x, l.y, &k, F::zero() - k.x, k.y);
    let dbl = |r: P| sum(r, &l, l.x, l.y, &l, l.x, l.y);
    let mut m = l.p;
    match job {
        "fadd_pp" => add(add_projective_point(l.p, k.p)),
        "fadd_aa" => add(add_affine_point(l.a, k.a)),
        "fadd_ap" => add(add_mixed_point(l.a, k.p)),
        "fdbl_p" => dbl(double_projective_point(l.p)),
        "fdbl_a" => dbl(double_affine_point(l.a)),
        "dbl_p" => dbl(l.p.double()),
        "dbl_a" => dbl(l.a.double()),
        "to_affine" => {
            let a = l.p.to_affine();
            (a.get_x() - l.x).say("GOAL0", "x");
            (a.get_y() - l.y).say("GOAL0", "y");
        }
        "from_p" => {
            let a = A::from(l.p);
            (a.get_x() - l.x).say("GOAL0", "x");
            (a.get_y() - l.y).say("GOAL0", "y");
        }
        "to_extended" => is(l.a.to_extended(), l.x, l.y, "to_extended"),
        "from_a" => is(P::from(l.a), l.x, l.y, "from affine"),
        "from_xy" => { is(P::from_x_and_y(l.x, l.y), l.x, l.y, "from_x_and_y"); let a = A::from_x_and_y(l.x, l.y); goal_true("coordinates", a.get_x() == l.x && a.get_y() == l.y) }
        "eq_p" => { let e = l.p == k.p; goal_true("extended equality", e == (l.x == k.x && l.y == k.y)) }
        "eq_a" => { let e = l.a == k.a; goal_true("affine equality", e == (l.x == k.x && l.y == k.y)) }
        "isid" => {
            let w = l.x.is_zero() && l.y == F::one();
            goal_true("is_identity affine", l.a.is_identity() == w);
            goal_true("is_identity extended", l.p.is_identity() == w);
            goal_true("on curve affine", l.a.is_on_curve());
            goal_true("on curve extended", l.p.is_on_curve());
        }
        "p+p" => add(l.p + k.p),
        "&p+&p" => add(&l.p + &k.p),
        "p+&p" => add(l.p + &k.p),
        "&p+p" => add(&l.p + k.p),
        "p+=p" => { m += k.p; add(m) }
        "p+=&p" => { m += &k.p; add(m) }
        "p-p" => sub(l.p - k.p),
        "&p-&p" => sub(&l.p - &k.p),
        "p-&p" => sub(l.p - &k.p),
        "&p-p" => sub(&l.p - k.p),
        "p-=p" => { m -= k.p; sub(m) }
        "p-=&p" => { m -= &k.p; sub(m) }
        "a+a" => add(l.a + k.a),
        "&a+&a" => add(&l.a + &k.a),
        "a+&a" => add(l.a + &k.a),
        "&a+a" => add(&l.a + k.a),
        "a-a" => sub(l.a - k.a),
        "&a-&a" => sub(&l.a - &k.a),
        "a-&a" => sub(l.a - &k.a),
        "&a-a" => sub(&l.a - k.a),
        "a+p" => add(l.a + k.p),
        "&a+&p" => add(&l.a + &k.p),
        "a+&p" => add(l.a + &k.p),
        "&a+p" => add(&l.a + k.p),
        "a-p" => sub(l.a - k.p),
        "&a-&p" => sub(&l.a - &k.p),
        "a-&p" => sub(l.a - &k.p),
        "&a-p" => sub(&l.a - k.p),
        "p+a" => add(l.p + k.a),
        "&p+&a" => add(&l.p + &k.a),
        "p+&a" => add(l.p + &k.a),
        "&p+a" => add(&l.p + k.a),
        "p-a" => sub(l.p - k.a),
        "&p-&a" => sub(&l.p - &k.a),
        "p-&a" => sub(l.p - &k.a),
        "&p-a" => sub(&l.p - k.a),
        "p+=a" => { m += k.a; add(m) }
        "p+=&a" => { m += &k.a; add(m) }
        "p-=a" => { m -= k.a; sub(m) }
        "p-=&a" => { m -= &k.a; sub(m) }
        "-p" => is(-l.p, F::zero() - l.x, l.y, "negation"),
        "-a" => is((-l.a).to_extended(), F::zero() - l.x, l.y, "negation"),
        "p.invert" => match Group::invert(l.p) { Some(r) => is(r, F::zero() - l.x, l.y, "inverse"), None => goal_true("no inverse", false) },
        "a.invert" => match Group::invert(l.a) { Some(r) => is(r.to_extended(), F::zero() - l.x, l.y, "inverse"), None => goal_true("no inverse reported for x = 0 only", l.x.is_zero()) },
        _ => panic!("unknown job"),
    }
}
fn member(job: &str) {
    let (x, y, z, t) = (F::sym("x"), F::sym("y"), F::sym("z"), F::sym("t"));
    (F::one() + A::PARAM_D * y * y).say("HYPN", "1 + d y^2");
    match job {
        "mem_a" => {
            let r = A::from_raw_unchecked(x, y).is_on_curve();
            let w = (y * y - x * x - F::one() - A::PARAM_D * x * x * y * y).is_zero();
            goal_true("affine membership", r == w);
        }
        "mem_p0" => {
            goal_true("no point with y = z = 0", !P::new(x, F::zero(), t, F::zero()).is_on_curve());
        }
        "mem_p" => {
            (z * z + A::PARAM_D * y * y).say("HYPN", "z^2 + d y^2, z not 0 or y not 0");
            let r = P::new(x, y, t, z).is_on_curve();
            let w = !z.is_zero() && (y * y * z * z - x * x * z * z - z * z * z * z - A::PARAM_D * x * x * y * y).is_zero();
            goal_true("extended membership", r == w);
        }
        "consts" => {
            goal_true("identity", A::ADDITIVE_IDENTITY.is_identity() && P::ADDITIVE_IDENTITY.is_identity() && P::ADDITIVE_IDENTITY.to_affine() == A::ADDITIVE_IDENTITY);
            goal_true("identity on curve", A::ADDITIVE_IDENTITY.is_on_curve() && P::ADDITIVE_IDENTITY.is_on_curve());
            goal_true("same d", <A as TwistedEdwardsCurve>::PARAM_D == <P as TwistedEdwardsCurve>::PARAM_D);
        }
        _ => panic!("unknown job"),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (j, ks) = (a[1].clone(), a.get(2).cloned().unwrap_or_default());
    kogsym::run(move || {
        if ks.is_empty() {
            member(&j)
        } else {
            job(&j, &ks)
        }
        note("DONE".to_string());
    });
}
