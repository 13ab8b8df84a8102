//! constraint systems and circuit gadgets on symbolic values
use bn_254::{Fq, Fr, G1Affine};
use grumpkin::{params::PARAM_B3, Affine as GrAffine, Projective as GrProjective};
use kogsym::{goal_true, note};
use parity_scale_codec::{Decode, Encode};
use zkstd::circuit::prelude::*;
use zkstd::common::*;
use zkstd::matrix::{DenseVectors, SparseRow};
use zkstd::r1cs::Wire;

#[derive(Clone, Debug, Default, PartialEq, Eq, Decode, Encode)]
struct D;
impl CircuitDriver for D {
    const ORDER_STR: &'static str = "30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001";
    const NUM_BITS: u16 = 254;
    type Affine = G1Affine;
    type Base = Fq;
    type Scalar = Fr;
    fn b3() -> Fr {
        PARAM_B3
    }
}
type Cs = R1cs<D>;
type FA = FieldAssignment<Fr>;
type PA = PointAssignment<Fr>;
type BA = BinaryAssignment;

fn s(n: &str) -> Fr {
    Fr::sym(n)
}
fn k(n: u64) -> Fr {
    Fr::from(n)
}
fn zero(label: &str, v: Fr) {
    v.say("GOAL0", label)
}
fn wire(c: char) -> Wire {
    match c {
        '1' => Wire::ONE,
        'a'..='h' => Wire::Instance(c as u64 - 'a' as u64 + 1),
        _ => Wire::Witness(c as u64 - 'p' as u64),
    }
}
/// coefficients are symbols; the letters are wires: '1' constant, a.. public, p.. private
fn row(n: &str, p: &str) -> SparseRow<Fr> {
    SparseRow(p.chars().enumerate().map(|(i, c)| (wire(c), s(&format!("{}{}", n, i)))).collect())
}
fn val(w: &Wire, x: &[Fr], y: &[Fr]) -> Fr {
    match w {
        Wire::Instance(i) => x[*i as usize],
        Wire::Witness(i) => y[*i as usize],
    }
}
fn eval(r: &SparseRow<Fr>, x: &[Fr], y: &[Fr]) -> Fr {
    let mut t = Fr::zero();
    for (w, c) in r.0.iter() {
        t = t + val(w, x, y) * *c;
    }
    t
}
fn names(p: &str, n: usize) -> Vec<Fr> {
    (0..n).map(|i| s(&format!("{}{}", p, i))).collect()
}
fn inst(n: usize) -> Vec<Fr> {
    let mut x = vec![Fr::one()];
    x.extend(names("x", n));
    x
}
fn distinct(r: &SparseRow<Fr>, l: &str) {
    let n = r.0.len();
    goal_true(&format!("{}: one coefficient per wire", l), (0..n).all(|i| (0..i).all(|j| r.0[i].0 != r.0[j].0)));
}
fn system(nx: usize, nw: usize) -> Cs {
    let mut cs = Cs::default();
    for v in names("x", nx) {
        FA::instance(&mut cs, v);
    }
    for v in names("w", nw) {
        FA::witness(&mut cs, v);
    }
    cs
}
fn rows(cs: &Cs) -> Vec<(SparseRow<Fr>, SparseRow<Fr>, SparseRow<Fr>)> {
    let (a, b, c) = cs.matrices();
    goal_true("three matrices of one height", a.0.len() == b.0.len() && b.0.len() == c.0.len() && cs.m() as usize == a.0.len());
    a.0.into_iter().zip(b.0).zip(c.0).map(|((a, b), c)| (a, b, c)).collect()
}
fn gap(r: &(SparseRow<Fr>, SparseRow<Fr>, SparseRow<Fr>), x: &[Fr], w: &[Fr]) -> Fr {
    eval(&r.0, x, w) * eval(&r.1, x, w) - eval(&r.2, x, w)
}

// ---------------------------------------------------------------- P18
fn lc(op: &str, pa: &str, pb: &str) {
    let (a, b, c) = (row("a", pa), row("b", pb), s("c"));
    let (x, w) = (inst(3), names("w", 3));
    let (dx, dw) = (DenseVectors::new(x.clone()), DenseVectors::new(w.clone()));
    let (ea, eb) = (eval(&a, &x, &w), eval(&b, &x, &w));
    let chk = |l: &str, r: SparseRow<Fr>, e: Fr| {
        distinct(&r, l);
        zero(l, eval(&r, &x, &w) - e);
        zero(&format!("{} evaluate", l), r.evaluate(&dx, &dw) - e);
    };
    match op {
        "+" => {
            chk("&a + &b", &a + &b, ea + eb);
            chk("a + b", a.clone() + b.clone(), ea + eb);
            chk("a + &b", a.clone() + &b, ea + eb);
            chk("&a + b", &a + b.clone(), ea + eb);
        }
        "-" => {
            chk("&a - &b", &a - &b, ea - eb);
            chk("a - b", a.clone() - b.clone(), ea - eb);
            chk("a - &b", a.clone() - &b, ea - eb);
            chk("&a - b", &a - b.clone(), ea - eb);
        }
        "*" => {
            chk("&a * &c", &a * &c, ea * c);
            chk("a * c", a.clone() * c, ea * c);
            chk("a * &c", a.clone() * &c, ea * c);
            chk("&a * c", &a * c, ea * c);
        }
        "neg" => {
            chk("-&a", -&a, Fr::zero() - ea);
            chk("-a", -a.clone(), Fr::zero() - ea);
        }
        "new" => {
            chk("new", SparseRow::new(a.0.clone()), ea);
            for ch in pa.chars() {
                chk("from wire", SparseRow::from(wire(ch)), val(&wire(ch), &x, &w));
                chk("from &wire", SparseRow::from(&wire(ch)), val(&wire(ch), &x, &w));
            }
            chk("from value", SparseRow::from(c), c);
            chk("one", SparseRow::one(), Fr::one());
        }
        "const" => match a.as_constant() {
            // a constant form has its constant as value whatever the assignment
            Some(v) => {
                goal_true("constant", pa.chars().all(|c| c == '1'));
                zero("constant value", v - ea);
            }
            None => goal_true("not a constant", pa != "1"),
        },
        _ => panic!("op"),
    }
}
fn vecs(n: usize) {
    let (a, b, c) = (names("a", n), names("b", n), s("c"));
    let (va, vb) = (DenseVectors::new(a.clone()), DenseVectors::new(b.clone()));
    let chk = |l: &str, r: DenseVectors<Fr>, f: &dyn Fn(usize) -> Fr| {
        goal_true(&format!("{} length", l), r.len() == n && r.get().len() == n && r.is_empty() == (n == 0));
        for i in 0..n.min(r.len()) {
            zero(l, r[i] - f(i));
            zero(l, r.get()[i] - f(i));
        }
        goal_true("iter length", r.iter().count() == r.len());
        for (i, e) in r.iter().enumerate() {
            zero("iter", e - f(i));
        }
    };
    chk("v * c", va.clone() * c, &|i| a[i] * c);
    chk("&v * c", &va * c, &|i| a[i] * c);
    chk("v * w", va.clone() * vb.clone(), &|i| a[i] * b[i]);
    chk("v + w", va.clone() + vb.clone(), &|i| a[i] + b[i]);
    chk("&v + &w", &va + &vb, &|i| a[i] + b[i]);
    chk("v - w", va.clone() - vb.clone(), &|i| a[i] - b[i]);
    chk("zero", DenseVectors::zero(n), &|_| Fr::zero());
    chk("one", DenseVectors::one(n), &|_| Fr::one());
    let mut p = DenseVectors::default();
    for e in &a {
        p.push(*e);
    }
    chk("push", p, &|i| a[i]);
}
/// rows: "pa,pb,pc;pa,pb,pc": built through mul_gate
fn sat(rs: &str, nx: usize, nw: usize) {
    let mut cs = system(nx, nw);
    let mut n = 0;
    for (i, r) in rs.split(';').filter(|r| !r.is_empty()).enumerate() {
        let p: Vec<&str> = r.split(',').collect();
        let g = |l: &str, p: &str| row(&format!("{}{}_", l, i), p);
        cs.mul_gate(&g("a", p[0]), &g("b", p[1]), &g("c", p[2]));
        n += 1;
    }
    let (x, w) = (inst(nx), names("w", nw));
    goal_true("sizes", cs.m() == n && cs.l() == nx + 1 && cs.m_l_1() == nw);
    for (i, e) in cs.x().iter().enumerate() {
        zero("instance", *e - x[i]);
    }
    for (i, e) in cs.w().iter().enumerate() {
        zero("witness", *e - w[i]);
    }
    let rr = rows(&cs);
    for (i, r) in rs.split(';').filter(|r| !r.is_empty()).enumerate() {
        let p: Vec<&str> = r.split(',').collect();
        let g = |l: &str, p: &str| row(&format!("{}{}_", l, i), p);
        zero("left row kept", eval(&rr[i].0, &x, &w) - eval(&g("a", p[0]), &x, &w));
        zero("right row kept", eval(&rr[i].1, &x, &w) - eval(&g("b", p[1]), &x, &w));
        zero("output row kept", eval(&rr[i].2, &x, &w) - eval(&g("c", p[2]), &x, &w));
    }
    let (ea, eb, ec) = cs.evaluate();
    goal_true("evaluation lengths", ea.len() == rr.len() && eb.len() == rr.len() && ec.len() == rr.len());
    let (a, b, c) = cs.matrices();
    let z = DenseVectors::new([x.clone(), w.clone()].concat());
    let pr = [a.prod(cs.m(), cs.l(), &z), b.prod(cs.m(), cs.l(), &z), c.prod(cs.m(), cs.l(), &z)];
    let ((ax, bx, cx), (aw, bw, cw)) = cs.z_vectors(cs.l(), cs.m_l_1());
    let col = |vx: &Vec<Vec<(Fr, usize)>>, vw: &Vec<Vec<(Fr, usize)>>, i: usize| {
        let mut t = Fr::zero();
        for (v, o) in [(vx, &x), (vw, &w)] {
            goal_true("one column per variable", v.len() == o.len());
            for (j, es) in v.iter().enumerate() {
                for (q, r) in es {
                    if *r == i {
                        t = t + *q * o[j];
                    }
                }
            }
        }
        t
    };
    for i in 0..rr.len() {
        let e = [eval(&rr[i].0, &x, &w), eval(&rr[i].1, &x, &w), eval(&rr[i].2, &x, &w)];
        zero("evaluate a", ea[i] - e[0]);
        zero("evaluate b", eb[i] - e[1]);
        zero("evaluate c", ec[i] - e[2]);
        for j in 0..3 {
            zero("product with z", pr[j][i] - e[j]);
        }
        zero("columns of a", col(&ax, &aw, i) - e[0]);
        zero("columns of b", col(&bx, &bw, i) - e[1]);
        zero("columns of c", col(&cx, &cw, i) - e[2]);
    }
    let got = cs.is_sat();
    let mut want = true;
    for r in &rr {
        if gap(r, &x, &w) != Fr::zero() {
            want = false;
        }
    }
    goal_true("is_sat reports exactly whether every constraint holds", got == want);
}
fn gate(op: &str, px: &str, py: &str, pz: &str) {
    let mut cs = system(2, 2);
    let (x, w) = (inst(2), names("w", 2));
    let (rx, ry, rz) = (row("a", px), row("b", py), row("c", pz));
    let (ex, ey, ez) = (eval(&rx, &x, &w), eval(&ry, &x, &w), eval(&rz, &x, &w));
    let want = match op {
        "mul" => {
            cs.mul_gate(&rx, &ry, &rz);
            ex * ey - ez
        }
        "add" => {
            cs.add_gate(&rx, &ry, &rz);
            ex + ey - ez
        }
        "sub" => {
            cs.sub_gate(&rx, &ry, &rz);
            ex - ey - ez
        }
        _ => {
            cs.equal_gate(&rx, &ry);
            ex - ey
        }
    };
    goal_true("no variable added", cs.l() == 3 && cs.m_l_1() == 2);
    let rr = rows(&cs);
    goal_true("one constraint", rr.len() == 1);
    zero("the constraint", gap(&rr[0], &x, &w) - want);
    goal_true("is_sat", cs.is_sat() == (want == Fr::zero()));
}

// ---------------------------------------------------------------- gadgets
/// how the inputs of a gadget are given
#[derive(Clone)]
struct Mode {
    sound: bool,
    vals: Vec<u64>, // concrete values of the building run when `sound`
}
struct B {
    cs: Cs,
    m: Mode,
    n: usize,
    fixed: Vec<(Wire, Fr)>, // wires whose value the second assignment is given
}
impl B {
    fn new(m: &Mode) -> Self {
        B { cs: Cs::default(), m: m.clone(), n: 0, fixed: vec![] }
    }
    fn v(&mut self, n: &str) -> Fr {
        self.n += 1;
        if self.m.sound {
            k(self.m.vals[self.n % self.m.vals.len()])
        } else {
            s(n)
        }
    }
    /// an operand: w witness, i instance, c constant, z constant zero, k constant one, s sum of two witnesses, m a witness minus a constant
    fn op(&mut self, c: char, n: &str) -> FA {
        match c {
            'w' => {
                let v = self.v(n);
                FA::witness(&mut self.cs, v)
            }
            'i' => {
                let v = self.v(n);
                FA::instance(&mut self.cs, v)
            }
            'c' => FA::constant(&s(&format!("k{}", n))),
            'z' => FA::constant(&Fr::zero()),
            'k' => FA::constant(&Fr::one()),
            's' => {
                let (a, b) = (self.v(n), self.v(&format!("{}'", n)));
                &FA::witness(&mut self.cs, a) + &FA::witness(&mut self.cs, b)
            }
            _ => {
                let a = self.v(n);
                &FA::witness(&mut self.cs, a) - &FA::constant(&s(&format!("k{}", n)))
            }
        }
    }
    /// a bit: 0 1 witness, n y instance (no, yes)
    fn bit(&mut self, c: char) -> BA {
        let (v, inst) = match c {
            '0' => (0, false),
            '1' => (1, false),
            'n' => (0, true),
            _ => (1, true),
        };
        let b = if inst { BA::instance(&mut self.cs, v) } else { BA::witness(&mut self.cs, v) };
        self.fixed.push((*b.inner(), k(v as u64)));
        b
    }
    /// a point (x z, y z, z) on the curve, kind 'p'; affine 'a'; the identity 'o' as (0, y, 0), 'i' as the constant
    fn point(&mut self, c: char, n: &str) -> (PA, Point) {
        let t = |q: &str| s(&format!("{}{}", q, n));
        let mk = |b: &mut B, c: [Fr; 3]| {
            let p = PA::witness(&mut b.cs, k(3), k(3), false);
            let a = [p.get_x(), p.get_y(), p.get_z()];
            for i in 0..3 {
                let w = a[i].inner().0[0].0;
                b.fixed.push((w, c[i]));
                if let Wire::Witness(j) = w {
                    b.cs.w[j as usize] = if b.m.sound { k(b.m.vals[i % b.m.vals.len()]) } else { c[i] };
                }
            }
            p
        };
        match c {
            'i' => (PA::identity(), Point { id: true, x: k(0), y: k(1) }),
            'o' => {
                let y = t("y");
                y.say("HYPN", "representative");
                (mk(self, [k(0), y, k(0)]), Point { id: true, x: k(0), y: k(1) })
            }
            _ => {
                let (x, y) = (t("x"), t("y"));
                (y * y - x * x * x - GrAffine::PARAM_B).say("HYP0", "curve");
                y.say("HYPN", "no points of order two");
                (x * x * x + GrAffine::PARAM_B).say("HYPN", "no points of order two");
                x.say("HYPN", "b is not a square");
                let z = if c == 'p' { t("z") } else { Fr::one() };
                z.say("HYPN", "projective");
                (mk(self, [x * z, y * z, z]), Point { id: false, x, y })
            }
        }
    }
}
#[derive(Clone, Copy)]
struct Point {
    id: bool,
    x: Fr,
    y: Fr,
}
/// the affine law, by cases, as a projective triple
fn sum(p: &Point, q: &Point) -> (bool, [Fr; 3]) {
    if p.id {
        return (q.id, [q.x, q.y, k(1)]);
    }
    if q.id {
        return (p.id, [p.x, p.y, k(1)]);
    }
    let (n, d, tangent);
    if p.x == q.x {
        // no point of order two: neither p nor 2p has y = 0
        let dbl = |p: &Point| {
            let x3 = p.x * p.x * p.x;
            let b = GrAffine::PARAM_B;
            // y(2p) (2 y)^3
            x3 * x3 + k(20) * b * x3 - k(8) * b * b
        };
        dbl(p).say("HYPN", "2p is not of order two");
        if p.y == q.y {
            n = p.x * p.x * k(3);
            d = p.y + p.y;
            tangent = true;
        } else {
            (p.y + q.y).say("HYP0", "equal x, distinct y: opposite points");
            return (true, [k(0), k(1), k(0)]);
        }
    } else {
        n = q.y - p.y;
        d = q.x - p.x;
        tangent = false;
        // y(p - q) (xq - xp)^3, with the slope of the chord through p and -q
        let m = Fr::zero() - q.y - p.y;
        (m * (p.x * d * d - (m * m - (p.x + q.x) * d * d)) - p.y * d * d * d).say("HYPN", "p - q is not of order two");
    }
    let _ = tangent;
    let dd = d * d;
    let w = n * n - (p.x + q.x) * dd;
    (false, [w * d, n * (p.x * dd - w) - p.y * dd * d, dd * d])
}
fn is_point(l: &str, o: [Fr; 3], want: (bool, [Fr; 3])) {
    let (id, [x, y, z]) = want;
    if id {
        zero(&format!("{}: x of the identity", l), o[0]);
        zero(&format!("{}: z of the identity", l), o[2]);
        o[1].say("GOALN", &format!("{}: y of the identity", l));
    } else {
        zero(&format!("{}: x", l), o[0] * z - x * o[2]);
        zero(&format!("{}: y", l), o[1] * z - y * o[2]);
        o[2].say("GOALN", &format!("{}: z", l));
    }
}
type Out = Box<dyn Fn(&[Fr], &[Fr])>;
fn ev(a: &FA) -> impl Fn(&[Fr], &[Fr]) -> Fr {
    let a = a.inner().clone();
    move |x, w| eval(&a, x, w)
}
fn bv(a: &BA) -> impl Fn(&[Fr], &[Fr]) -> Fr {
    let a = *a.inner();
    move |x, w| val(&a, x, w)
}
fn pv(a: &PA) -> impl Fn(&[Fr], &[Fr]) -> [Fr; 3] {
    let (a, b, c) = (ev(&a.get_x()), ev(&a.get_y()), ev(&a.get_z()));
    move |x, w| [a(x, w), b(x, w), c(x, w)]
}
/// builds the gadget; the result states what its output must be under any assignment
fn gadget(b: &mut B, g: &str, ks: &[char]) -> Out {
    match g {
        "mul" | "add" | "&+" | "&-" => {
            let (x, y) = (b.op(ks[0], "x"), b.op(ks[1], "y"));
            let o = match g {
                "mul" => FA::mul(&mut b.cs, &x, &y),
                "add" => FA::add(&mut b.cs, &x, &y),
                "&+" => &x + &y,
                _ => &x - &y,
            };
            if !b.m.sound {
                zero("value()", o.value(&b.cs) - ev(&o)(&b.cs.x(), &b.cs.w()));
            }
            let (x, y, o, g) = (ev(&x), ev(&y), ev(&o), g.to_string());
            Box::new(move |i, w| {
                let (x, y) = (x(i, w), y(i, w));
                let e = match &g[..] {
                    "mul" => x * y,
                    "&-" => x - y,
                    _ => x + y,
                };
                zero("output", o(i, w) - e)
            })
        }
        "neg" | "square" => {
            let x = b.op(ks[0], "x");
            let o = if g == "neg" { -&x } else { FA::square(&mut b.cs, &x) };
            let (x, o, sq) = (ev(&x), ev(&o), g == "square");
            Box::new(move |i, w| {
                let x = x(i, w);
                zero("output", o(i, w) - if sq { x * x } else { Fr::zero() - x })
            })
        }
        "select" => {
            let (x, y, c) = (b.op(ks[0], "x"), b.op(ks[1], "y"), b.bit(ks[2]));
            let o = FA::conditional_select(&mut b.cs, &x, &y, &c);
            let (x, y, o, one) = (ev(&x), ev(&y), ev(&o), "1y".contains(ks[2]));
            Box::new(move |i, w| zero("output", o(i, w) - if one { x(i, w) } else { y(i, w) }))
        }
        "is_eq" | "is_neq" => {
            let (x, y) = (b.op(ks[0], "x"), b.op(ks[1], "y"));
            let o = if g == "is_eq" { FA::is_eq(&mut b.cs, &x, &y) } else { FA::is_neq(&mut b.cs, &x, &y) };
            let (x, y, o, e) = (ev(&x), ev(&y), bv(&o), g == "is_eq");
            Box::new(move |i, w| {
                let t = x(i, w) == y(i, w);
                zero("output", o(i, w) - k((t == e) as u64))
            })
        }
        "not" => {
            let x = b.bit(ks[0]);
            let o = bv(&BA::not(&mut b.cs, &x));
            let e = "0n".contains(ks[0]);
            Box::new(move |i, w| zero("output", o(i, w) - k(e as u64)))
        }
        "and" => {
            let (x, y) = (b.bit(ks[0]), b.bit(ks[1]));
            let o = bv(&BA::and(&mut b.cs, &x, &y));
            let e = "1y".contains(ks[0]) && "1y".contains(ks[1]);
            Box::new(move |i, w| zero("output", o(i, w) - k(e as u64)))
        }
        "of_bit" => {
            let x = b.bit(ks[0]);
            let (o, e) = (ev(&FA::from(&x)), "1y".contains(ks[0]));
            Box::new(move |i, w| zero("output", o(i, w) - k(e as u64)))
        }
        // enforcing gadgets: the honest inputs satisfy the relation, the second assignment must
        "enforce_eq" | "enforce_const" | "cond_eq" | "cond_eq_bits" => {
            let c = if g.starts_with("cond") { Some(b.bit(ks[2])) } else { None };
            let on = c.is_none() || "1y".contains(ks[2]);
            if g == "cond_eq_bits" {
                let (x, y) = (b.bit(ks[0]), b.bit(ks[1]));
                BA::conditional_enforce_equal(&mut b.cs, &x, &y, c.as_ref().unwrap());
                let (x, y) = (bv(&x), bv(&y));
                return Box::new(move |i, w| {
                    if on {
                        zero("relation", x(i, w) - y(i, w))
                    }
                });
            }
            let (x, y) = (b.op(ks[0], "x"), b.op(ks[1], "y"));
            let (xe, ye) = (ev(&x), ev(&y));
            if !b.m.sound && on {
                (xe(&b.cs.x(), &b.cs.w()) - ye(&b.cs.x(), &b.cs.w())).say("HYP0", "honest");
            }
            match g {
                "enforce_eq" => FA::enforce_eq(&mut b.cs, &x, &y),
                "enforce_const" => {
                    let c = y.inner().as_constant().unwrap_or(Fr::zero());
                    FA::enforce_eq_constant(&mut b.cs, &x, &c)
                }
                _ => FA::conditional_enforce_equal(&mut b.cs, &x, &y, c.as_ref().unwrap()),
            }
            Box::new(move |i, w| {
                if on {
                    zero("relation", xe(i, w) - ye(i, w))
                }
            })
        }
        "inputize" => {
            let x = b.op(ks[0], "x");
            let o = FA::inputize(&mut b.cs, x.clone());
            let (x, o) = (ev(&x), ev(&o));
            Box::new(move |i, w| zero("output", o(i, w) - x(i, w)))
        }
        "enforce_bits" => {
            // all bit strings of the given length, the value enforced
            let bits: Vec<BA> = ks[1..].iter().map(|c| b.bit(*c)).collect();
            let x = b.op(ks[0], "x");
            let e = ks[1..].iter().fold(0u64, |a, c| 2 * a + "1y".contains(*c) as u64);
            let x_ = ev(&x);
            if !b.m.sound {
                (x_(&b.cs.x(), &b.cs.w()) - k(e)).say("HYP0", "honest");
            }
            FA::enforce_eq_bits(&mut b.cs, &x, &bits);
            Box::new(move |i, w| zero("relation", x_(i, w) - k(e)))
        }
        "p_add" | "p_double" | "p_cond" | "p_selid" | "p_descale" | "p_public" => {
            let (p, pp) = b.point(ks[0], "p");
            match g {
                "p_double" => {
                    let o = pv(&p.double(&mut b.cs));
                    Box::new(move |i, w| is_point("double", o(i, w), sum(&pp, &pp)))
                }
                "p_selid" => {
                    let c = b.bit(ks[1]);
                    let o = pv(&p.select_identity(&mut b.cs, &c));
                    let on = "1y".contains(ks[1]);
                    Box::new(move |i, w| is_point("select_identity", o(i, w), if on { (pp.id, [pp.x, pp.y, k(1)]) } else { (true, [k(0), k(1), k(0)]) }))
                }
                "p_descale" => {
                    let o = pv(&p.descale(&mut b.cs));
                    Box::new(move |i, w| {
                        let v = o(i, w);
                        zero("normalised z", v[2] - k(!pp.id as u64));
                        zero("x", v[0] - pp.x);
                        zero("y", v[1] - pp.y);
                    })
                }
                "p_public" => {
                    let q = b.point(ks[1], "q").1;
                    let z = if ks[1] == 'p' { s("zq") } else { Fr::one() };
                    let g = if q.id { GrProjective::new_unchecked(k(0), k(1), k(0)) } else { GrProjective::new_unchecked(q.x * z, q.y * z, z) };
                    if !b.m.sound {
                        if pp.id != q.id {
                            return Box::new(|_, _| ());
                        }
                        (pp.x - q.x).say("HYP0", "honest");
                        (pp.y - q.y).say("HYP0", "honest");
                    }
                    p.assert_equal_public_point(&mut b.cs, g);
                    Box::new(move |_, _| {
                        // two finite points are equal, and never a finite point and the identity
                        if pp.id != q.id {
                            zero("relation", Fr::one());
                        } else {
                            zero("relation x", pp.x - q.x);
                            zero("relation y", pp.y - q.y);
                        }
                    })
                }
                _ => {
                    let (q, qq) = b.point(ks[1], "q");
                    if g == "p_add" {
                        let o = pv(&p.add(&q, &mut b.cs));
                        Box::new(move |i, w| is_point("add", o(i, w), sum(&pp, &qq)))
                    } else {
                        let c = b.bit(ks[2]);
                        let o = pv(&PA::conditional_select(&mut b.cs, &p, &q, &c));
                        let t = if "1y".contains(ks[2]) { pp } else { qq };
                        Box::new(move |i, w| is_point("conditional_select", o(i, w), (t.id, [t.x, t.y, k(1)])))
                    }
                }
            }
        }
        "p_witness" | "p_instance" => {
            let (x, y) = (s("x"), s("y"));
            let id = ks[0] == 'o';
            let p = if g == "p_witness" {
                PA::witness(&mut b.cs, x, y, id)
            } else {
                PA::instance(&mut b.cs, if id { GrAffine::ADDITIVE_IDENTITY } else { GrAffine::new_unchecked(x, y) })
            };
            let o = pv(&p);
            let inst = g != "p_witness";
            Box::new(move |i, w| {
                let v = o(i, w);
                if !(inst && id) {
                    zero("x", v[0] - x);
                    zero("y", v[1] - y);
                }
                zero("z", v[2] - k(!id as u64));
            })
        }
        _ => panic!("gadget"),
    }
}
fn honest(g: &str, ks: &[char]) {
    let mut b = B::new(&Mode { sound: false, vals: vec![] });
    let o = gadget(&mut b, g, ks);
    let (x, w) = (b.cs.x(), b.cs.w());
    for (i, r) in rows(&b.cs).iter().enumerate() {
        zero(&format!("constraint {} holds", i), gap(r, &x, &w));
    }
    o(&x, &w);
}
fn shape(b: &B) -> Vec<String> {
    rows(&b.cs)
        .iter()
        .map(|r| {
            let f = |r: &SparseRow<Fr>| r.0.iter().map(|(w, c)| format!("{}*{}", w, kogsym::ident(&c.0))).collect::<Vec<_>>().join("+");
            format!("{} . {} = {}", f(&r.0), f(&r.1), f(&r.2))
        })
        .collect()
}
fn sound(g: &str, ks: &[char]) {
    let m = |v: &[u64]| Mode { sound: true, vals: v.to_vec() };
    let mut b = B::new(&m(&[3, 5, 7]));
    let o = gadget(&mut b, g, ks);
    for v in [&[4u64, 4][..], &[0, 0], &[0, 1], &[1, 2]] {
        let mut b2 = B::new(&m(v));
        let _ = gadget(&mut b2, g, ks);
        goal_true("the constraints do not depend on the values", shape(&b) == shape(&b2) && b.cs.l() == b2.cs.l() && b.cs.m_l_1() == b2.cs.m_l_1());
    }
    let given = |w: Wire| b.fixed.iter().find(|e| e.0 == w).map(|e| e.1);
    let x: Vec<Fr> = (0..b.cs.l()).map(|i| if i == 0 { Fr::one() } else { given(Wire::Instance(i as u64)).unwrap_or_else(|| s(&format!("X{}", i))) }).collect();
    let w: Vec<Fr> = (0..b.cs.m_l_1()).map(|i| given(Wire::Witness(i as u64)).unwrap_or_else(|| s(&format!("W{}", i)))).collect();
    for r in rows(&b.cs).iter() {
        gap(r, &x, &w).say("HYP0", "constraint");
    }
    o(&x, &w);
}
/// decomposition into bits and comparison with a constant
fn bits_build(g: &str, n: usize, c: &str, len: usize) -> (B, Vec<BA>, Option<FA>) {
    let mut b = B::new(&Mode { sound: false, vals: vec![] });
    let mut out: Vec<BA> = vec![];
    if g == "to" {
        let x = b.op('w', "x");
        kogsym::set_flag("symbits", true);
        out = FA::to_bits(&mut b.cs, &x, n);
        kogsym::set_flag("symbits", false);
        return (b, out, Some(x));
    }
    let mut rd = Fr::zero();
    for ch in c.chars() {
        rd = rd + rd + k((ch == '1') as u64);
    }
    for i in 0..len {
        let w = BA::witness(&mut b.cs, 0);
        if let Wire::Witness(j) = w.inner() {
            b.cs.w[*j as usize] = s(&format!("a{}", i));
        }
        out.push(w);
    }
    if g == "rc" {
        FA::range_check(&mut b.cs, &out, rd);
    } else {
        FA::range_check_bits(&mut b.cs, &out, n as u64);
    }
    (b, out, None)
}
/// the constraints and the honest values, for the driver to decide over all bit strings
fn bits(g: &str, n: usize, c: &str, len: usize) {
    let (b, out, xf) = bits_build(g, n, c, len);
    if let Some(x) = xf {
        note(format!("XWIRE {}", x.inner().0[0].0.to_string().replace(' ', ":")));
    }
    let (x, w) = (b.cs.x(), b.cs.w());
    for (i, v) in x.iter().enumerate() {
        v.say("OUT", &Wire::Instance(i as u64).to_string().replace(' ', ":"));
    }
    for (i, v) in w.iter().enumerate() {
        v.say("OUT", &Wire::Witness(i as u64).to_string().replace(' ', ":"));
    }
    note(format!("BITS {}", out.iter().map(|b| b.inner().to_string().replace(' ', ":")).collect::<Vec<_>>().join(" ")));
    for r in rows(&b.cs).iter() {
        let f = |r: &SparseRow<Fr>| {
            if r.0.is_empty() {
                return "-".to_string();
            }
            r.0.iter().map(|(w, c)| format!("{}*{}", w.to_string().replace(' ', ":"), kogsym::hex(&kogsym::from_mont(&c.0, &Fr::SYM_P, 0xc2e1f593efffffff)))).collect::<Vec<_>>().join("+")
        };
        note(format!("ROW {} {} {}", f(&r.0), f(&r.1), f(&r.2)));
        gap(r, &x, &w).say("OUT", "gap");
    }
}
/// concrete counterpart: `honest` says whether the assignment is the one the gadget wrote, or W0, W1.. replace it
fn bitsv(g: &str, n: usize, c: &str, len: usize, honest: bool) {
    let (b, out, xf) = bits_build(g, n, c, len);
    let (x, w0) = (b.cs.x(), b.cs.w());
    let w: Vec<Fr> = if honest { w0 } else { (0..w0.len()).map(|i| s(&format!("W{}", i))).collect() };
    let ob: Vec<Fr> = out.iter().map(|b| val(b.inner(), &x, &w)).collect();
    let bin = ob.iter().all(|b| *b == k(0) || *b == k(1));
    let ob: Vec<u8> = ob.iter().map(|b| (*b != k(0)) as u8).collect();
    let good = bin
        && match &xf {
            Some(xf) => {
                let t = PrimeField::to_bits(eval(xf.inner(), &x, &w));
                ob[..] == t[256 - n..]
            }
            None => {
                let m: Vec<u8> = if g == "rc" { c.bytes().map(|c| c - b'0').collect() } else { vec![1; n] };
                let mut m2 = vec![0; 300 - m.len()];
                m2.extend(m);
                let mut o2 = vec![0; 300 - ob.len()];
                o2.extend(&ob);
                o2 <= m2
            }
        };
    for r in rows(&b.cs).iter() {
        let e = gap(r, &x, &w);
        if honest {
            if good || xf.is_some() {
                zero("an honest constraint", e);
            }
        } else {
            e.say("HYP0", "constraint");
        }
    }
    if !honest || xf.is_some() {
        goal_true("the bits are what the constraints promise", good);
    }
}

// ---------------------------------------------------------------- scalar multiple of a point
fn scalar_setup() -> (Cs, FA, PA) {
    let mut cs = Cs::default();
    let x = FA::witness(&mut cs, s("x"));
    let g = GrAffine::from(GrProjective::ADDITIVE_GENERATOR.double() + GrProjective::ADDITIVE_GENERATOR);
    let p = PA::witness(&mut cs, g.get_x(), g.get_y(), false);
    (cs, x, p)
}
/// the composition of point gadgets, with every point operation recorded
fn scalar_tokens() {
    let name = |p: &PA| {
        let r = |a: FA| a.inner().0.iter().map(|(w, c)| format!("{}*{}", w, if *c == k(0) { "0" } else if *c == k(1) { "1" } else { "?" })).collect::<Vec<_>>().join("+").replace(' ', ":");
        format!("{}/{}/{}", r(p.get_x()), r(p.get_y()), r(p.get_z()))
    };
    let (mut c1, x1, _) = scalar_setup();
    c1.w[0] = k(12345);
    let (mut c2, x2, p) = scalar_setup();
    c2.w[0] = k(12345);
    let bits = FA::to_bits(&mut c1, &x1, 256);
    note(format!("BITS {}", bits.iter().map(|b| b.inner().to_string().replace(' ', ":")).collect::<Vec<_>>().join(" ")));
    note(format!("BASE {}", name(&p)));
    kogsym::set_flag("points", true);
    let o = p.scalar_point(&mut c2, &x2);
    kogsym::set_flag("points", false);
    note(format!("RESULT {}", name(&o)));
    let f = |r: &SparseRow<Fr>| r.0.iter().map(|(w, c)| format!("{}*{}", w, kogsym::ident(&c.0))).collect::<Vec<_>>().join("+");
    let sh = |c: &Cs| rows(c).iter().map(|r| format!("{} . {} = {}", f(&r.0), f(&r.1), f(&r.2))).collect::<Vec<_>>();
    goal_true("only the constraints of the decomposition besides those of the point operations", sh(&c1) == sh(&c2) && c1.l() == c2.l() && c1.m_l_1() == c2.m_l_1());
    let eq = (0..c1.w().len().min(c2.w().len())).all(|i| c1.w()[i] == c2.w()[i]);
    goal_true("same assignment", eq);
}
/// concrete counterpart
fn scalar_native() {
    let (mut cs, x, p) = scalar_setup();
    let v = s("x");
    let o = p.scalar_point(&mut cs, &x);
    goal_true("satisfied", cs.is_sat());
    let g = GrProjective::ADDITIVE_GENERATOR.double() + GrProjective::ADDITIVE_GENERATOR;
    let mut e = GrProjective::ADDITIVE_IDENTITY;
    for b in PrimeField::to_bits(v) {
        e = e.double();
        if b == 1 {
            e = e + g;
        }
    }
    let got = GrProjective::new_unchecked(o.get_x().value(&cs), o.get_y().value(&cs), o.get_z().value(&cs));
    goal_true("the multiple", got == e);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    kogsym::run(move || {
        let g = |i: usize| a.get(i).cloned().unwrap_or_default();
        let ks: Vec<char> = g(3).chars().collect();
        match &a[1][..] {
            "lc" => lc(&g(2), &g(3), &g(4)),
            "vecs" => vecs(g(2).parse().unwrap()),
            "sat" => sat(&g(2), g(3).parse().unwrap(), g(4).parse().unwrap()),
            "gate" => gate(&g(2), &g(3), &g(4), &g(5)),
            "honest" => honest(&g(2), &ks),
            "sound" => sound(&g(2), &ks),
            "bits" => bits(&g(2), g(3).parse().unwrap(), &g(4), g(5).parse().unwrap_or(0)),
            "bitsv" => bitsv(&g(2), g(3).parse().unwrap(), &g(4), g(5).parse().unwrap_or(0), g(6) == "honest"),
            "scalar_tokens" => scalar_tokens(),
            "scalar_native" => scalar_native(),
            _ => panic!("job"),
        }
        note("DONE".to_string());
    });
}
