//! Miller loop steps, loop structure and final exponentiation of BN254
use bn_254::{AteParing, Fq, Fq12, Fq2, Fq6, Fr, G1Affine, G2Affine, G2PairingAffine, G2Projective, Gt};
use kogsym::{goal_true, note};
use zkstd::common::*;

fn w(f: &Fq12, i: usize) -> Fq2 {
    f.0[i % 2].0[i / 2]
}
fn from_w(c: &[Fq2]) -> Fq12 {
    Fq12([Fq6([c[0], c[2], c[4]]), Fq6([c[1], c[3], c[5]])])
}
fn fq2(n: &str) -> Fq2 {
    Fq2([Fq::sym(&format!("{}0", n)), Fq::sym(&format!("{}1", n))])
}
fn g1(n: &str) -> G1Affine {
    G1Affine { x: Fq::sym(&format!("{}x", n)), y: Fq::sym(&format!("{}y", n)), is_infinity: false }
}
fn emb(a: Fq) -> Fq2 {
    Fq2([a, Fq::zero()])
}
/// l is a nonzero multiple of the line through (x, y) with slope num / den, at the point (px, py)
fn line(l: &Fq12, x: Fq2, y: Fq2, num: Fq2, den: Fq2, p: &G1Affine) {
    let (px, py) = (emb(p.x), emb(p.y));
    let l0 = w(l, 0);
    l0.say("GOALN", "line value has a constant term");
    (w(l, 1) * den * py + l0 * num * px).say("GOAL0", "slope term of the line");
    (w(l, 3) * den * py - l0 * (num * x - den * y)).say("GOAL0", "intercept term of the line");
    for i in [2, 4, 5] {
        w(l, i).say("GOAL0", "no other terms");
    }
}
fn point(t: &G2Projective, num: Fq2, den: Fq2, xs: Fq2, x: Fq2, y: Fq2) {
    // (x3, y3): x3 = (num/den)^2 - xs, y3 = (num/den) (x - x3) - y, Jacobian coordinates
    let d2 = den * den;
    let x3 = num * num - xs * d2;
    let y3 = num * (x * d2 - x3) - y * d2 * den;
    let z2 = t.z * t.z;
    t.z.say("GOALN", "z of the running point");
    (t.x * d2 - x3 * z2).say("GOAL0", "x of the running point");
    (t.y * d2 * den - y3 * z2 * t.z).say("GOAL0", "y of the running point");
}
fn token() -> Fq12 {
    let mut r = Fq12::zero();
    r.0[0].0[0].0[0] = Fq(kogsym::symbol("tok", &Fq::one().0, &Fq::SYM_P));
    r
}
fn name(a: &Fq12) -> String {
    let n = kogsym::ident(&a.0[0].0[0].0[0].0);
    if n.starts_with('n') { n } else if *a == Fq12::one() { "one".to_string() } else { "other".to_string() }
}
fn job(job: &str, arg: &str) {
    match job {
        "dbl" | "add" => {
            let (x, y, z) = (Fq2::sym("x"), Fq2::sym("y"), Fq2::sym("z"));
            let p = G1Affine { x: Fq::sym("px"), y: Fq::sym("py"), is_infinity: false };
            y.say("HYPN", "y");
            z.say("HYPN", "z");
            emb(p.y).say("HYPN", "py");
            (y * y - x * x * x - G2Affine::PARAM_B).say("HYP0", "point of the twist");
            let z2 = z * z;
            let mut t = G2Projective { x: x * z2, y: y * z2 * z, z };
            if job == "dbl" {
                let c = t.double_eval();
                let l = Fq12::one().untwist(c, p);
                let xx = x * x;
                let (num, den) = (xx + xx + xx, y + y);
                point(&t, num, den, x + x, x, y);
                line(&l, x, y, num, den, &p);
            } else {
                let (qx, qy) = (Fq2::sym("qx"), Fq2::sym("qy"));
                (x - qx).say("HYPN", "different abscissas");
                qy.say("HYPN", "qy");
                (qy * qy - qx * qx * qx - G2Affine::PARAM_B).say("HYP0", "point of the twist");
                let c = t.add_eval(G2Affine { x: qx, y: qy, is_infinity: false });
                let l = Fq12::one().untwist(c, p);
                let (num, den) = (y - qy, x - qx);
                point(&t, num, den, x + qx, x, y);
                line(&l, x, y, num, den, &p);
            }
        }
        // a line is multiplied into the accumulator
        "mulline" => {
            let p = G1Affine { x: Fq::sym("px"), y: Fq::sym("py"), is_infinity: false };
            let c: Vec<Fq2> = (0..6).map(|i| Fq2::sym(&format!("f{}", i))).collect();
            let mut t = G2Projective { x: Fq2::sym("x"), y: Fq2::sym("y"), z: Fq2::sym("z") };
            let co = t.double_eval();
            let f = from_w(&c);
            let r = f.untwist(co, p);
            let l = Fq12::one().untwist(co, p);
            let xi = Fq2([Fq::from(9u64), Fq::one()]);
            for i in 0..6 {
                let mut s = Fq2::zero();
                for j in 0..6 {
                    let k = (i + 6 - j) % 6;
                    let m = w(&l, k) * c[j];
                    s = s + if j + k >= 6 { m * xi } else { m };
                }
                (w(&r, i) - s).say("GOAL0", "product with the line");
            }
        }
        // arg: one letter per pair: p ordinary, l identity on the left, r identity on the right, b both
        "loop" => {
            kogsym::set_flag("tok", true);
            let mut pairs = vec![];
            for (i, k) in arg.chars().enumerate() {
                let p = if k == 'l' || k == 'b' { G1Affine::ADDITIVE_IDENTITY } else { g1(&format!("p{}", i)) };
                let q = if k == 'r' || k == 'b' { G2Affine::ADDITIVE_IDENTITY } else { G2Affine { x: fq2(&format!("q{}x", i)), y: fq2(&format!("q{}y", i)), is_infinity: false } };
                if k == 'p' {
                    note(format!("PAIR {} {};{}", i, kogsym::ident(&p.x.0), kogsym::ident(&p.y.0)));
                    note(format!("Q {}", i));
                }
                pairs.push((p, G2PairingAffine::from(q)));
            }
            note("PREPARED".to_string());
            let r = AteParing::multi_miller_loop(&pairs);
            note(format!("RESULT {}", name(&r)));
        }
        "pairing" => {
            kogsym::set_flag("tok", true);
            kogsym::set_flag("tok_fe", true);
            let k = arg.chars().next().unwrap();
            let p = if k == 'l' || k == 'b' { G1Affine::ADDITIVE_IDENTITY } else { g1("p0") };
            let q = if k == 'r' || k == 'b' { G2Affine::ADDITIVE_IDENTITY } else { G2Affine { x: fq2("q0x"), y: fq2("q0y"), is_infinity: false } };
            if k == 'p' {
                note(format!("PAIR 0 {};{}", kogsym::ident(&p.x.0), kogsym::ident(&p.y.0)));
                note("Q 0".to_string());
            }
            note("PREPARED".to_string());
            let r = AteParing::pairing(p, q);
            note(format!("RESULT {}", name(&r.0)));
        }
        "fe" => {
            kogsym::set_flag("tok", true);
            let x = token();
            note(format!("INPUT {}", name(&x)));
            let r = x.final_exp();
            note(format!("RESULT {}", name(&r.0)));
        }
        "cyclemma" => {
            kogsym::set_flag("cyclemma", true);
            let mut f = Fq12::one();
            f.0[1].0[1] = Fq2([Fq::from(3u64), Fq::from(5u64)]);
            f.final_exp();
            goal_true("cyclotomic squaring is used", false);
        }
        "native" => native(),
        "native_fe" => native_fe(),
        _ => panic!("unknown job"),
    }
}
fn pw(f: Fq12, bits: &[u64]) -> Fq12 {
    let mut r = Fq12::one();
    for l in bits.iter().rev() {
        for i in (0..64).rev() {
            r = r * r;
            if l >> i & 1 == 1 {
                r = r * f;
            }
        }
    }
    r
}
const R: [u64; 4] = [0x43e1f593f0000001, 0x2833e84879b97091, 0xb85045b68181585d, 0x30644e72e131a029];
/// bilinearity, non-degeneracy, products and identities on concrete points (replay only)
fn native() {
    let (g, h) = (G1Affine::ADDITIVE_GENERATOR, G2Affine::ADDITIVE_GENERATOR);
    let e = AteParing::pairing(g, h).0;
    goal_true("pairing of the generators", e == Gt::ADDITIVE_GENERATOR.0);
    goal_true("non-degenerate", e != Fq12::one() && e != Fq12::zero());
    goal_true("order r", pw(e, &R) == Fq12::one());
    let ks = [[1u64, 0, 0, 0], [2, 0, 0, 0], [3, 0, 0, 0], [u64::MAX, 7, 0, 0], [0x123456789abcdef, 0xfedcba98, 0x55aa55aa55aa, 0x1fffffffffffffff], [R[0] - 1, R[1], R[2], R[3]]];
    let fr = |k: &[u64; 4]| Fr::to_mont_form(*k);
    let mut prev = vec![];
    for (i, a) in ks.iter().enumerate() {
        let b = &ks[(i * 2 + 1) % ks.len()];
        let p = G1Affine::from(g * fr(a));
        let q = G2Affine::from(h * fr(b));
        let want = pw(e, &{ let t = fr(a) * fr(b); t.montgomery_reduce() });
        goal_true("bilinear", AteParing::pairing(p, q).0 == want);
        prev.push((p, q, want));
    }
    let (o1, o2) = (G1Affine::ADDITIVE_IDENTITY, G2Affine::ADDITIVE_IDENTITY);
    for (p, q) in [(o1, h), (g, o2), (o1, o2)] {
        goal_true("identity pairs to one", AteParing::pairing(p, q).0 == Fq12::one());
    }
    let prep = |v: &[(G1Affine, G2Affine)]| v.iter().map(|(p, q)| (*p, G2PairingAffine::from(*q))).collect::<Vec<_>>();
    for n in 0..4usize {
        for mask in 0..(1usize << (2 * n)) {
            let mut v = vec![];
            let mut want = Fq12::one();
            for i in 0..n {
                let m = mask >> (2 * i) & 3;
                v.push((if m & 1 == 1 { o1 } else { prev[i + 1].0 }, if m & 2 == 2 { o2 } else { prev[i + 1].1 }));
                if m == 0 {
                    want = want * prev[i + 1].2;
                }
            }
            if n == 3 && mask % 5 != 0 {
                continue;
            }
            goal_true("product of pairings", AteParing::multi_miller_loop(&prep(&v)).final_exp().0 == want);
        }
    }
}
fn native_fe() {
    let mut s = 7u64;
    let mut rnd = || { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let a = s; Fq::from(a ^ a >> 29) * Fq::from(a.rotate_left(31) | 1) };
    let mut fs: Vec<Fq12> = vec![];
    for _ in 0..4 {
        fs.push(from_w(&(0..6).map(|_| Fq2([rnd(), rnd()])).collect::<Vec<_>>()));
    }
    for k in 0..6 {
        let mut c = vec![Fq2::zero(); 6];
        c[k] = Fq2([rnd(), rnd()]);
        fs.push(from_w(&c));
        c[0] = Fq2([rnd(), rnd()]);
        fs.push(from_w(&c));
        c[(k + 1) % 6] = Fq2([Fq::one(), Fq::zero()]);
        fs.push(from_w(&c));
        fs.push(from_w(&c).conjugate());
    }
    fs.push(Fq12::one());
    let mut some = false;
    for (i, f) in fs.iter().enumerate() {
        let r = f.final_exp().0;
        goal_true("the result has order dividing r", pw(r, &R) == Fq12::one());
        if i < 4 {
            goal_true("not trivial", r != Fq12::one());
        }
        some = some || r != Fq12::one();
        let o = fs[(i + 1) % fs.len()];
        goal_true("multiplicative", (*f * o).final_exp().0 == r * o.final_exp().0);
    }
    goal_true("not trivial", some);
    goal_true("one", Fq12::one().final_exp().0 == Fq12::one());
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (j, k) = (a[1].clone(), a.get(2).cloned().unwrap_or_default());
    kogsym::run(move || {
        job(&j, &k);
        note("DONE".to_string());
    });
}
