//! point arithmetic of the Weierstrass curves on symbolic points
use bn_254::{Fq, Fq2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use grumpkin::{Affine as GrAffine, Projective as GrProjective};
use kogsym::{goal_true, note};
use zkstd::arithmetic::weierstrass::*;
use zkstd::common::*;

trait Sy: PrimeField {
    fn sy(n: &str) -> Self;
    fn sa(&self, k: &str, l: &str);
}
macro_rules! sy {
    ($t:ident) => {
        impl Sy for $t {
            fn sy(n: &str) -> Self { $t::sym(n) }
            fn sa(&self, k: &str, l: &str) { self.say(k, l) }
        }
    };
}
sy!(Fq);
sy!(Fr);
sy!(Fq2);

/// a symbolic point: kind 'p' (x z, y z, z), 'a' affine, 'o' identity (0, y, 0), 'i' affine identity
struct Pt<A: BNAffine> {
    id: bool,
    x: A::Base,
    y: A::Base,
    p: A::Extended,
    a: A,
}
fn pt<A: BNAffine>(n: &str, kind: char) -> Pt<A>
where
    A::Base: Sy,
    A::Extended: BNProjective<Base = A::Base, Affine = A>,
{
    let v = |s: &str| A::Base::sy(&format!("{}{}", s, n));
    match kind {
        'o' => {
            let y = v("y");
            y.sa("HYPN", "representative");
            let p = A::Extended::new_unchecked(A::Base::zero(), y, A::Base::zero());
            Pt { id: true, x: A::Base::zero(), y: A::Base::zero(), p, a: A::ADDITIVE_IDENTITY }
        }
        'i' => Pt { id: true, x: A::Base::zero(), y: A::Base::zero(), p: A::Extended::ADDITIVE_IDENTITY, a: A::ADDITIVE_IDENTITY },
        _ => {
            let (x, y) = (v("x"), v("y"));
            (y * y - x * x * x - A::PARAM_B).sa("HYP0", &format!("curve{}", n));
            y.sa("HYPN", "no points of order two");
            let p = if kind == 'p' {
                let z = v("z");
                z.sa("HYPN", "projective");
                A::Extended::new_unchecked(x * z, y * z, z)
            } else {
                A::Extended::new_unchecked(x, y, A::Base::one())
            };
            Pt { id: false, x, y, p, a: A::new_unchecked(x, y) }
        }
    }
}
/// the result r must be the point l + k
fn sum<A: BNAffine>(r: A::Extended, l: &Pt<A>, k: &Pt<A>)
where
    A::Base: Sy,
    A::Extended: BNProjective<Base = A::Base, Affine = A>,
{
    let (x, y, z) = (r.get_x(), r.get_y(), r.get_z());
    let is = |ex: A::Base, ey: A::Base| {
        // x/z = ex, y/z = ey
        z.sa("GOALN", "z of a finite sum");
        (x - ex * z).sa("GOAL0", "x of the sum");
        (y - ey * z).sa("GOAL0", "y of the sum");
    };
    if l.id && k.id {
        z.sa("GOAL0", "identity + identity");
    } else if l.id {
        is(k.x, k.y);
    } else if k.id {
        is(l.x, l.y);
    } else if l.x == k.x {
        if l.y == k.y {
            // tangent
            let (n, d) = (l.x * l.x + l.x * l.x + l.x * l.x, l.y + l.y);
            let dd = d * d;
            let w = n * n - (l.x + l.x) * dd;
            z.sa("GOALN", "z of a double");
            (x * dd - w * z).sa("GOAL0", "x of the double");
            (y * dd * d - (n * (l.x * dd - w) - l.y * dd * d) * z).sa("GOAL0", "y of the double");
        } else {
            z.sa("GOAL0", "opposite points add to the identity");
        }
    } else {
        let (n, d) = (k.y - l.y, k.x - l.x);
        let dd = d * d;
        let w = n * n - (l.x + k.x) * dd;
        z.sa("GOALN", "z of a chord sum");
        (x * dd - w * z).sa("GOAL0", "x of the chord sum");
        (y * dd * d - (n * (l.x * dd - w) - l.y * dd * d) * z).sa("GOAL0", "y of the chord sum");
    }
}
/// r must be the point of q (finite or identity)
fn same<A: BNAffine>(r: A::Extended, q: &Pt<A>, lab: &str)
where
    A::Base: Sy,
    A::Extended: BNProjective<Base = A::Base, Affine = A>,
{
    if q.id {
        r.get_z().sa("GOAL0", lab);
    } else {
        r.get_z().sa("GOALN", lab);
        (r.get_x() - q.x * r.get_z()).sa("GOAL0", lab);
        (r.get_y() - q.y * r.get_z()).sa("GOAL0", lab);
    }
}
fn run<A: BNAffine>(job: &str, ks: &str)
where
    A::Base: Sy,
    A::Extended: BNProjective<Base = A::Base, Affine = A>,
{
    let c: Vec<char> = ks.chars().collect();
    let l = pt::<A>("1", c[0]);
    let k = if c.len() > 1 { pt::<A>("2", c[1]) } else { pt::<A>("2", 'i') };
    match job {
        // functions
        "fadd_pp" => sum(add_projective_point(l.p, k.p), &l, &k),
        "fadd_aa" => sum(add_affine_point(l.a, k.a), &l, &k),
        "fadd_ap" => sum(add_mixed_point(l.a, k.p), &l, &k),
        "fdbl_p" => sum(double_projective_point(l.p), &l, &l),
        "fdbl_a" => sum(double_affine_point(l.a), &l, &l),
        "dbl_p" => sum(l.p.double(), &l, &l),
        "dbl_a" => sum(l.a.double(), &l, &l),
        // conversions
        "to_affine" => {
            let a = l.p.to_affine();
            goal_true("identity flag", a.is_identity() == l.id);
            if !l.id {
                (a.get_x() - l.x).sa("GOAL0", "x");
                (a.get_y() - l.y).sa("GOAL0", "y");
            } else {
                goal_true("canonical identity", a == A::ADDITIVE_IDENTITY);
            }
        }
        "to_extended" => same(l.a.to_extended(), &l, "to_extended"),
        "round" => same(l.a.to_extended().to_affine().to_extended(), &l, "round trip"),
        "eq_p" => {
            let e = l.p == k.p;
            let w = if l.id || k.id { l.id && k.id } else { l.x == k.x && l.y == k.y };
            goal_true("projective equality", e == w);
        }
        "eq_a" => {
            let e = l.a == k.a;
            let w = if l.id || k.id { l.id && k.id } else { l.x == k.x && l.y == k.y };
            goal_true("affine equality", e == w);
        }
        "isid" => {
            goal_true("is_identity projective", l.p.is_identity() == l.id);
            goal_true("is_identity affine", l.a.is_identity() == l.id);
            goal_true("on curve projective", l.p.is_on_curve());
            goal_true("on curve affine", l.a.is_on_curve());
        }
        _ => panic!("unknown job"),
    }
}
/// membership for arbitrary coordinates
fn member<A: BNAffine>(job: &str)
where
    A::Base: Sy,
    A::Extended: BNProjective<Base = A::Base, Affine = A>,
{
    let (x, y, z) = (A::Base::sy("x"), A::Base::sy("y"), A::Base::sy("z"));
    match job {
        "mem_a" => {
            let a = A::new_unchecked(x, y);
            let r = a.is_on_curve();
            let w = y * y - x * x * x - A::PARAM_B == A::Base::zero();
            goal_true("affine membership", r == w);
        }
        "mem_p" => {
            let p = A::Extended::new_unchecked(x, y, z);
            let r = p.is_on_curve();
            let w = z == A::Base::zero() || y * y * z - x * x * x - A::PARAM_B * z * z * z == A::Base::zero();
            goal_true("projective membership", r == w);
        }
        "coords" => {
            let p = A::Extended::new_unchecked(x, y, z);
            (p.get_x() - x).sa("GOAL0", "get_x");
            (p.get_y() - y).sa("GOAL0", "get_y");
            (p.get_z() - z).sa("GOAL0", "get_z");
            let a = A::from_x_and_y(x, y);
            (a.get_x() - x).sa("GOAL0", "affine x");
            (a.get_y() - y).sa("GOAL0", "affine y");
            goal_true("finite", !a.is_identity());
            let p = A::Extended::from_x_and_y(x, y);
            (p.get_x() - x * p.get_z()).sa("GOAL0", "projective x");
            (p.get_y() - y * p.get_z()).sa("GOAL0", "projective y");
            p.get_z().sa("GOALN", "projective z");
        }
        "consts" => {
            let g = A::ADDITIVE_GENERATOR;
            let h = A::Extended::ADDITIVE_GENERATOR;
            goal_true("generator affine finite", !g.is_identity());
            goal_true("generator affine on curve", g.get_y().square() == g.get_x().square() * g.get_x() + A::PARAM_B);
            goal_true("generator projective", h.to_affine() == g);
            goal_true("generator on_curve()", g.is_on_curve() && h.is_on_curve());
            goal_true("identity affine", A::ADDITIVE_IDENTITY.is_identity());
            goal_true("identity projective", A::Extended::ADDITIVE_IDENTITY.is_identity());
            goal_true("3b", A::PARAM_3B == A::PARAM_B + A::PARAM_B + A::PARAM_B);
            goal_true("same b", <A::Extended as BNCurve>::PARAM_B == <A as BNCurve>::PARAM_B);
            goal_true("same 3b", <A::Extended as BNCurve>::PARAM_3B == <A as BNCurve>::PARAM_3B);
            A::PARAM_B.sa("OUT", "b");
            g.get_x().sa("OUT", "gx");
            g.get_y().sa("OUT", "gy");
        }
        _ => panic!("unknown job"),
    }
}

/// operator forms that exist for concrete types only
macro_rules! forms {
    ($f:ident, $A:ident, $P:ident) => {
        fn $f(job: &str, ks: &str) {
            let c: Vec<char> = ks.chars().collect();
            let l = pt::<$A>("1", c[0]);
            let k = pt::<$A>("2", if c.len() > 1 { c[1] } else { 'i' });
            let nk = Pt::<$A> { id: k.id, x: k.x, y: -k.y, p: k.p, a: k.a };
            let nl = Pt::<$A> { id: l.id, x: l.x, y: -l.y, p: l.p, a: l.a };
            let (mut m, mut n): ($P, $P) = (l.p, l.p);
            match job {
                "p+p" => sum(l.p + k.p, &l, &k),
                "&p+&p" => sum(&l.p + &k.p, &l, &k),
                "p+&p" => sum(l.p + &k.p, &l, &k),
                "&p+p" => sum(&l.p + k.p, &l, &k),
                "p+=p" => { m += k.p; sum(m, &l, &k) }
                "&p+=p" => { let mut r = &l.p; r += k.p; sum(*r, &l, &k) }
                "p+=&p" => { m += &k.p; sum(m, &l, &k) }
                "p-p" => sum(l.p - k.p, &l, &nk),
                "&p-&p" => sum(&l.p - &k.p, &l, &nk),
                "p-&p" => sum(l.p - &k.p, &l, &nk),
                "&p-p" => sum(&l.p - k.p, &l, &nk),
                "p-=p" => { m -= k.p; sum(m, &l, &nk) }
                "p-=&p" => { m -= &k.p; sum(m, &l, &nk) }
                "a+a" => sum(l.a + k.a, &l, &k),
                "&a+&a" => sum(&l.a + &k.a, &l, &k),
                "a+&a" => sum(l.a + &k.a, &l, &k),
                "&a+a" => sum(&l.a + k.a, &l, &k),
                "a-a" => sum(l.a - k.a, &l, &nk),
                "&a-&a" => sum(&l.a - &k.a, &l, &nk),
                "a-&a" => sum(l.a - &k.a, &l, &nk),
                "&a-a" => sum(&l.a - k.a, &l, &nk),
                "a+p" => sum(l.a + k.p, &l, &k),
                "&a+&p" => sum(&l.a + &k.p, &l, &k),
                "a+&p" => sum(l.a + &k.p, &l, &k),
                "&a+p" => sum(&l.a + k.p, &l, &k),
                "a-p" => sum(l.a - k.p, &l, &nk),
                "&a-&p" => sum(&l.a - &k.p, &l, &nk),
                "a-&p" => sum(l.a - &k.p, &l, &nk),
                "&a-p" => sum(&l.a - k.p, &l, &nk),
                "p+a" => sum(l.p + k.a, &l, &k),
                "&p+&a" => sum(&l.p + &k.a, &l, &k),
                "p+&a" => sum(l.p + &k.a, &l, &k),
                "&p+a" => sum(&l.p + k.a, &l, &k),
                "p-a" => sum(l.p - k.a, &l, &nk),
                "&p-&a" => sum(&l.p - &k.a, &l, &nk),
                "p-&a" => sum(l.p - &k.a, &l, &nk),
                "&p-a" => sum(&l.p - k.a, &l, &nk),
                "p+=a" => { m += k.a; sum(m, &l, &k) }
                "p+=&a" => { m += &k.a; sum(m, &l, &k) }
                "p-=a" => { m -= k.a; sum(m, &l, &nk) }
                "p-=&a" => { m -= &k.a; sum(m, &l, &nk) }
                "-p" => same(-l.p, &nl, "negation"),
                "-a" => same((-l.a).to_extended(), &nl, "negation"),
                "p.invert" => match Group::invert(l.p) { Some(r) => { goal_true("finite", !l.id); same(r, &nl, "inverse") } None => goal_true("identity", l.id) },
                "a.invert" => match Group::invert(l.a) { Some(r) => { goal_true("finite", !l.id); same(r.to_extended(), &nl, "inverse") } None => goal_true("identity", l.id) },
                "from_a" => same($P::from(l.a), &l, "from affine"),
                "from_p" => same($A::from(l.p).to_extended(), &l, "from projective"),
                _ => run::<$A>(job, ks),
            }
        }
    };
}
forms!(g1, G1Affine, G1Projective);
forms!(g2, G2Affine, G2Projective);
forms!(gr, GrAffine, GrProjective);

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (job, cv, ks) = (a[1].clone(), a[2].clone(), a.get(3).cloned().unwrap_or_default());
    kogsym::run(move || {
        if ks.is_empty() {
            match &cv[..] {
                "g1" => member::<G1Affine>(&job),
                "g2" => member::<G2Affine>(&job),
                _ => member::<GrAffine>(&job),
            }
        } else {
            match &cv[..] {
                "g1" => g1(&job, &ks),
                "g2" => g2(&job, &ks),
                _ => gr(&job, &ks),
            }
        }
        note("DONE".to_string());
    });
}
