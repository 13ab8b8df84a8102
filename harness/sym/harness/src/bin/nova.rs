//! folding, relaxed satisfaction and commitments over abstract groups
use bn_254::{Fq, Fr};
use kogsym::{goal_true, note};
use zknova::relaxed_r1cs::{R1csInstance, R1csShape, R1csWitness, RelaxedR1csInstance, RelaxedR1csWitness};
use zknova::circuit::AugmentedFCircuit;
use zknova::{Bn254Driver, FunctionCircuit, GrumpkinDriver, Ivc, PedersenCommitment, Prover, PublicParams, RecursiveProof, Verifier};
use zkstd::circuit::prelude::{CircuitDriver, FieldAssignment, R1cs};
use zkstd::common::*;
use zkstd::matrix::{DenseVectors, SparseMatrix, SparseRow};
use zkstd::r1cs::Wire;

trait Sym: PrimeField {
    fn sym(n: &str) -> Self;
    fn say(&self, kind: &str, label: &str);
}
impl Sym for Fr {
    fn sym(n: &str) -> Self {
        Fr::sym(n)
    }
    fn say(&self, kind: &str, label: &str) {
        Fr::say(self, kind, label)
    }
}
impl Sym for Fq {
    fn sym(n: &str) -> Self {
        Fq::sym(n)
    }
    fn say(&self, kind: &str, label: &str) {
        Fq::say(self, kind, label)
    }
}
fn vars<F: Sym>(n: &str, k: usize) -> Vec<F> {
    (0..k).map(|i| F::sym(&format!("{}{}", n, i))).collect()
}
fn point<C: CircuitDriver>(d: C::Scalar) -> C::Affine {
    (<C::Affine as Group>::ADDITIVE_GENERATOR * mulled::<C>(d)).into()
}
fn mulled<C: CircuitDriver>(d: C::Scalar) -> <C::Affine as BNCurve>::Scalar {
    kogsym::cast(kogsym::uncast(d))
}
fn key<C: CircuitDriver>(n: usize) -> PedersenCommitment<C::Affine>
where
    C::Scalar: Sym,
{
    key_of::<C>("", n)
}
fn key_of<C: CircuitDriver>(prefix: &str, n: usize) -> PedersenCommitment<C::Affine>
where
    C::Scalar: Sym,
{
    PedersenCommitment { g: vars::<C::Scalar>(&format!("{}g", prefix), n).into_iter().map(point::<C>).collect() }
}
fn commit<C: CircuitDriver>(ck: &PedersenCommitment<C::Affine>, v: &[C::Scalar]) -> C::Affine {
    ck.commit(&DenseVectors::new(v.iter().map(|x| *x).collect()))
}
/// the commitment by its definition
fn combination<C: CircuitDriver>(v: &[C::Scalar]) -> C::Affine
where
    C::Scalar: Sym,
{
    let g = vars::<C::Scalar>("g", v.len());
    point::<C>(v.iter().zip(g).fold(C::Scalar::zero(), |s, (a, g)| s + *a * g))
}

fn pedersen<C: CircuitDriver>(n: usize, k: usize)
where
    C::Scalar: Sym,
{
    let ck = key::<C>(n);
    let (a, b) = (vars::<C::Scalar>("a", k), vars::<C::Scalar>("b", k));
    let (ca, cb) = (commit::<C>(&ck, &a), commit::<C>(&ck, &b));
    goal_true("the combination of the generators", ca == combination::<C>(&a));
    let sum: Vec<_> = a.iter().zip(b.iter()).map(|(x, y)| *x + *y).collect();
    goal_true("additive", commit::<C>(&ck, &sum) == (ca + cb).into());
    let s = C::Scalar::sym("s");
    let sc: Vec<_> = a.iter().map(|x| *x * s).collect();
    goal_true("multiples", commit::<C>(&ck, &sc) == (ca * mulled::<C>(s)).into());
    goal_true("zero", commit::<C>(&ck, &vec![C::Scalar::zero(); k]) == <C::Affine as Group>::ADDITIVE_IDENTITY);
}
/// one entry changed
fn pedersen_bind<C: CircuitDriver>(n: usize, k: usize, i: usize)
where
    C::Scalar: Sym,
{
    let ck = key::<C>(n);
    let a = vars::<C::Scalar>("a", k);
    let mut b = a.clone();
    b[i] = C::Scalar::sym("b");
    (b[i] - a[i]).say("HYPN", "another entry");
    C::Scalar::sym(&format!("g{}", i)).say("HYPN", "the generator is not the identity");
    goal_true("another commitment", commit::<C>(&ck, &a) != commit::<C>(&ck, &b));
}
/// a fresh key: enough generators, all independent
fn pedersen_key<C: CircuitDriver>(n: u64)
where
    C::Scalar: Sym,
{
    kogsym::set_sym_random(true);
    let ck = PedersenCommitment::<C::Affine>::new(n, &mut OsRng);
    goal_true("size of the key", ck.g.len() >= 1 << n);
    kogsym::set_flag("quiet", true);
    let id = <C::Affine as Group>::ADDITIVE_IDENTITY;
    let gn = <C::Affine as Group>::ADDITIVE_GENERATOR;
    for i in 0..ck.g.len() {
        goal_true("distinct: generator and identity", ck.g[i] != id && ck.g[i] != gn);
        for j in 0..i {
            goal_true("distinct: two generators", ck.g[i] != ck.g[j] && ck.g[i] != -ck.g[j]);
        }
    }
    let other = PedersenCommitment::<C::Affine>::new(n, &mut OsRng);
    goal_true("distinct: two keys", other.g[0] != ck.g[0]);
    kogsym::set_flag("quiet", false);
    for i in 0..1 << n {
        let mut e = vec![C::Scalar::zero(); 1 << n];
        e[i] = C::Scalar::one();
        goal_true("every entry has its own generator", commit::<C>(&ck, &e) == ck.g[i]);
    }
}

// ---------------------------------------------------------------- systems
/// rows "iw.i.w" separated by "_": for each of A, B, C the list of wires (letters: o one, x, y instance, a, b, c witness)
struct Sys<F: PrimeField> {
    rows: Vec<[Vec<(usize, F)>; 3]>,
    nx: usize,
    nw: usize,
}
fn system<C: CircuitDriver>(text: &str, nx: usize, nw: usize) -> (R1csShape<C>, Sys<C::Scalar>)
where
    C::Scalar: Sym,
{
    system_of("", text, nx, nw, false)
}
/// unit: the coefficients of C are one
fn system_of<C: CircuitDriver>(prefix: &str, text: &str, nx: usize, nw: usize, unit: bool) -> (R1csShape<C>, Sys<C::Scalar>)
where
    C::Scalar: Sym,
{
    let mut rows = vec![];
    let mut ms: Vec<Vec<SparseRow<C::Scalar>>> = vec![vec![], vec![], vec![]];
    if text != "-" {
        for (j, r) in text.split('_').enumerate() {
            let mut row: [Vec<(usize, C::Scalar)>; 3] = [vec![], vec![], vec![]];
            for (k, part) in r.split('.').enumerate() {
                let mut sp = vec![];
                for ch in part.chars() {
                    let (pos, w) = match ch {
                        'o' => (0, Wire::Instance(0)),
                        'x' => (1, Wire::Instance(1)),
                        'y' => (2, Wire::Instance(2)),
                        'a' => (nx + 1, Wire::Witness(0)),
                        'b' => (nx + 2, Wire::Witness(1)),
                        'c' => (nx + 3, Wire::Witness(2)),
                        _ => panic!("letter"),
                    };
                    let c = if unit && k == 2 { C::Scalar::one() } else { C::Scalar::sym(&format!("{}k{}{}{}", prefix, j, ["a", "b", "c"][k], ch)) };
                    row[k].push((pos, c));
                    sp.push((w, c));
                }
                ms[k].push(SparseRow(sp));
            }
            rows.push(row);
        }
    }
    let m = rows.len() as u64;
    let mut it = ms.into_iter().map(SparseMatrix);
    let (a, b, c) = (it.next().unwrap(), it.next().unwrap(), it.next().unwrap());
    (R1csShape { m, instance_length: nx as u64, witness_length: nw as u64, a, b, c }, Sys { rows, nx, nw })
}
impl<F: PrimeField> Sys<F> {
    /// (A z)(B z) - u (C z) - e in every row
    fn residuals(&self, u: F, x: &[F], w: &[F], e: &[F]) -> Vec<F> {
        let z: Vec<F> = [&[u], x, w].concat();
        self.rows
            .iter()
            .enumerate()
            .map(|(j, r)| {
                let d = |k: usize| r[k].iter().fold(F::zero(), |s, (i, c)| s + *c * z[*i]);
                d(0) * d(1) - u * d(2) - e[j]
            })
            .collect()
    }
}

fn judge<F: Sym>(got: bool, res: &[F]) {
    if got {
        for r in res {
            r.say("GOAL0", "accepted: the row holds");
        }
        return;
    }
    // a row whose value differs from zero must exist; the first one is the witness
    kogsym::set_flag("quiet", true);
    let bad = res.iter().position(|r| *r != F::zero());
    kogsym::set_flag("quiet", false);
    match bad {
        Some(i) => res[i].say("GOALN", "rejected: some row fails"),
        None => goal_true("rejected although every row holds", false),
    }
}
fn relaxed<C: CircuitDriver>(text: &str, nx: usize, nw: usize, dx: isize, dw: isize, de: isize)
where
    C::Scalar: Sym,
{
    let (shape, sys) = system::<C>(text, nx, nw);
    let u = C::Scalar::sym("scale");
    let m = sys.rows.len();
    let len = |n: usize, d: isize| (n as isize + d) as usize;
    let (x, w, e) = (vars::<C::Scalar>("x", len(nx, dx)), vars::<C::Scalar>("w", len(nw, dw)), vars::<C::Scalar>("e", len(m, de)));
    let i = RelaxedR1csInstance::<C> { commit_w: point::<C>(C::Scalar::sym("cw")), commit_e: point::<C>(C::Scalar::sym("ce")), u, x: DenseVectors::new(x.clone()) };
    let wi = RelaxedR1csWitness::<C> { w: DenseVectors::new(w.clone()), e: DenseVectors::new(e.clone()) };
    let got = shape.is_sat_relaxed(&i, &wi);
    if dx != 0 || dw != 0 || de != 0 {
        goal_true("wrong lengths are rejected", !got);
        return;
    }
    judge(got, &sys.residuals(u, &x, &w, &e));
}
fn strict<C: CircuitDriver>(text: &str, nx: usize, nw: usize, dx: isize, dw: isize)
where
    C::Scalar: Sym,
{
    let (shape, sys) = system::<C>(text, nx, nw);
    let m = sys.rows.len();
    let len = |n: usize, d: isize| (n as isize + d) as usize;
    let (x, w) = (vars::<C::Scalar>("x", len(nx, dx)), vars::<C::Scalar>("w", len(nw, dw)));
    let ck = key::<C>(nw + 2);
    let cw = C::Scalar::sym("cw");
    let i = R1csInstance::<C> { commit_w: point::<C>(cw), x: DenseVectors::new(x.clone()) };
    let wi = R1csWitness::<C> { w: DenseVectors::new(w.clone()) };
    let got = shape.is_sat(&ck, &i, &wi);
    if dx != 0 || dw != 0 {
        goal_true("wrong lengths are rejected", !got);
        return;
    }
    let mut r = sys.residuals(C::Scalar::one(), &x, &w, &vec![C::Scalar::zero(); m]);
    r.push(w.iter().zip(vars::<C::Scalar>("g", nw)).fold(-cw, |s, (a, g)| s + *a * g));
    judge(got, &r);
}
/// the relaxed form of a strict pair
fn relax<C: CircuitDriver>(text: &str, nx: usize, nw: usize)
where
    C::Scalar: Sym,
{
    let (shape, sys) = system::<C>(text, nx, nw);
    let (x, w) = (vars::<C::Scalar>("x", nx), vars::<C::Scalar>("w", nw));
    let ck = key::<C>(nw + 2);
    let i = R1csInstance::<C>::new(&shape, commit::<C>(&ck, &w), x.clone());
    let wi = R1csWitness::<C>::new(&shape, w.clone());
    goal_true("commitment of the witness", wi.commit(&ck) == i.commit_w);
    let ri = RelaxedR1csInstance::from_r1cs_instance(&ck, &shape, &i);
    let rw = RelaxedR1csWitness::from_r1cs_witness(&shape, &wi);
    goal_true("u", ri.u == C::Scalar::one());
    goal_true("x", ri.x.get() == x);
    goal_true("w", rw.w.get() == w);
    goal_true("commitments", ri.commit_w == i.commit_w && ri.commit_e == <C::Affine as Group>::ADDITIVE_IDENTITY);
    goal_true("error vector", rw.e.get() == vec![C::Scalar::zero(); sys.rows.len()]);
    let d = RelaxedR1csInstance::<C>::dummy(nx);
    let dw = RelaxedR1csWitness::<C>::dummy(nw, sys.rows.len());
    goal_true("the dummy is satisfied", shape.is_sat_relaxed(&d, &dw));
    goal_true("the dummy is opened", commit::<C>(&ck, &dw.w.get()) == d.commit_w && commit::<C>(&ck, &dw.e.get()) == d.commit_e);
    let a = shape.is_sat(&ck, &i, &wi);
    let b = shape.is_sat_relaxed(&ri, &rw);
    goal_true("strict and relaxed agree", a == b);
}

type Pair<C> = (RelaxedR1csInstance<C>, RelaxedR1csWitness<C>, R1csInstance<C>, R1csWitness<C>);
fn pair<C: CircuitDriver>(ck: &PedersenCommitment<C::Affine>, nx: usize, nw: usize, m: usize) -> Pair<C>
where
    C::Scalar: Sym,
{
    let (x1, w1, e1) = (vars::<C::Scalar>("x", nx), vars::<C::Scalar>("w", nw), vars::<C::Scalar>("e", m));
    let (x2, w2) = (vars::<C::Scalar>("X", nx), vars::<C::Scalar>("W", nw));
    (
        RelaxedR1csInstance { commit_w: commit::<C>(ck, &w1), commit_e: commit::<C>(ck, &e1), u: C::Scalar::sym("scale"), x: DenseVectors::new(x1) },
        RelaxedR1csWitness { w: DenseVectors::new(w1), e: DenseVectors::new(e1) },
        R1csInstance { commit_w: commit::<C>(ck, &w2), x: DenseVectors::new(x2) },
        R1csWitness { w: DenseVectors::new(w2) },
    )
}
fn fold<C: CircuitDriver>(text: &str, nx: usize, nw: usize)
where
    C::Scalar: Sym,
{
    kogsym::set_flag("ro", true);
    let (shape, sys) = system::<C>(text, nx, nw);
    let m = sys.rows.len();
    let ck = key::<C>(nw.max(m) + 1);
    let (i1, w1, i2, w2) = pair::<C>(&ck, nx, nw, m);
    let p = Prover::new(shape, ck.clone());
    let (f, fw, t) = p.prove(&i1, &w1, &i2, &w2);
    let r = f.u - i1.u;
    goal_true("lengths", f.x.len() == nx && fw.w.len() == nw && fw.e.len() == m);
    let r1 = sys.residuals(i1.u, &i1.x.get(), &w1.w.get(), &w1.e.get());
    let r2 = sys.residuals(C::Scalar::one(), &i2.x.get(), &w2.w.get(), &vec![C::Scalar::zero(); m]);
    let rf = sys.residuals(f.u, &f.x.get(), &fw.w.get(), &fw.e.get());
    for j in 0..m {
        (rf[j] - r1[j] - r * r * r2[j]).say("GOAL0", "the error of the folded row is the combination of the errors");
    }
    for j in 0..nx {
        (f.x[j] - i1.x[j] - r * i2.x[j]).say("GOAL0", "folded instance");
    }
    for j in 0..nw {
        (fw.w[j] - w1.w[j] - r * w2.w[j]).say("GOAL0", "folded witness");
    }
    goal_true("the witness commitment opens", f.commit_w == commit::<C>(&ck, &fw.w.get()));
    goal_true("the error commitment opens", f.commit_e == commit::<C>(&ck, &fw.e.get()));
    let v = Verifier::verify(t, &i1, &i2);
    goal_true("the verifier folds to the same u", v.u == f.u);
    goal_true("the verifier folds to the same x", v.x == f.x);
    goal_true("the verifier folds to the same commitments", v.commit_w == f.commit_w && v.commit_e == f.commit_e);
}
/// the challenge depends on the cross term and on every part of the running instance
fn binding<C: CircuitDriver>(nx: usize)
where
    C::Scalar: Sym,
{
    kogsym::set_flag("ro", true);
    let ck = key::<C>(4);
    let (i1, _, i2, _) = pair::<C>(&ck, nx, 2, 2);
    let t = point::<C>(C::Scalar::sym("t"));
    let y = C::Scalar::sym("y");
    let r = |t: C::Affine, a: &RelaxedR1csInstance<C>| Verifier::verify(t, a, &i2).u - a.u;
    let r0 = r(t, &i1);
    let mut others = vec![("cross term", r(point::<C>(y), &i1))];
    let mut a = i1.clone();
    a.commit_w = point::<C>(y);
    others.push(("witness commitment", r(t, &a)));
    a = i1.clone();
    a.commit_e = point::<C>(y);
    others.push(("error commitment", r(t, &a)));
    a = i1.clone();
    a.u = y;
    others.push(("u", r(t, &a)));
    for j in 0..nx {
        a = i1.clone();
        let mut x = a.x.get();
        x[j] = y;
        a.x = DenseVectors::new(x);
        others.push(("x", r(t, &a)));
    }
    kogsym::set_flag("quiet", true);
    for (n, v) in others {
        goal_true(&format!("distinct: challenge and {}", n), v != r0);
    }
    goal_true("distinct: same inputs, same challenge", r(t, &i1) == r0);
    kogsym::set_flag("quiet", false);
}

/// a system written with the gadgets: the relation of the folding scheme says the same as the constraint system
fn shape<C: CircuitDriver>(kind: usize)
where
    C::Scalar: Sym,
{
    let mut cs = R1cs::<C>::default();
    let x = FieldAssignment::instance(&mut cs, C::Scalar::sym("x"));
    let a = FieldAssignment::witness(&mut cs, C::Scalar::sym("a"));
    let mut values = vec![C::Scalar::sym("x")];
    match kind {
        0 => FieldAssignment::enforce_eq(&mut cs, &a, &x),
        1 => {
            let p = FieldAssignment::mul(&mut cs, &a, &x);
            let y = FieldAssignment::instance(&mut cs, C::Scalar::sym("y"));
            values.push(C::Scalar::sym("y"));
            FieldAssignment::enforce_eq(&mut cs, &(&p + &x), &y);
        }
        _ => {
            let k = FieldAssignment::constant(&C::Scalar::sym("k"));
            let p = FieldAssignment::mul(&mut cs, &(&a - &k), &(&a + &x));
            let b = FieldAssignment::witness(&mut cs, C::Scalar::sym("b"));
            FieldAssignment::enforce_eq(&mut cs, &p, &b);
            FieldAssignment::enforce_eq_constant(&mut cs, &b, &C::Scalar::sym("k"));
            let q = FieldAssignment::inputize(&mut cs, b);
            values.push(C::Scalar::sym("b"));
            let _ = q;
        }
    }
    let sat = cs.is_sat();
    let shape = R1csShape::from(cs.clone());
    let ck = key::<C>(8);
    let (i, w) = zknova::relaxed_r1cs::r1cs_instance_and_witness(&cs, &shape, &ck);
    goal_true("the public inputs", i.x.get() == values);
    goal_true("the witness", w.w.get() == cs.w());
    goal_true("commitment", i.commit_w == combination::<C>(&cs.w()));
    goal_true("strict relation", shape.is_sat(&ck, &i, &w) == sat);
    let ri = RelaxedR1csInstance::from_r1cs_instance(&ck, &shape, &i);
    let rw = RelaxedR1csWitness::from_r1cs_witness(&shape, &w);
    goal_true("relaxed relation", shape.is_sat_relaxed(&ri, &rw) == sat);
}
/// the digest of an instance depends on the step, the states and every part of the instance
fn digest<C: CircuitDriver, E: CircuitDriver<Base = C::Scalar, Scalar = C::Base>>(nx: usize, nz: usize)
where
    C::Scalar: Sym,
    C::Base: Sym,
{
    kogsym::set_flag("ro", true);
    let ck = key::<C>(4);
    let (i1, _, _, _) = pair::<C>(&ck, nx, 2, 2);
    let (z0, zi) = (vars::<C::Base>("z", nz), vars::<C::Base>("Z", nz));
    let (y, yb) = (C::Scalar::sym("v"), C::Base::sym("V"));
    let h = |a: &RelaxedR1csInstance<C>, i: u64, z0: &[C::Base], zi: &[C::Base]| a.hash::<E>(i, &DenseVectors::new(z0.to_vec()), &DenseVectors::new(zi.to_vec()));
    let h0 = h(&i1, 3, &z0, &zi);
    let mut others = vec![("step", h(&i1, 4, &z0, &zi)), ("step", h(&i1, 2, &z0, &zi))];
    for j in 0..nz {
        let mut z = z0.clone();
        z[j] = yb;
        others.push(("start state", h(&i1, 3, &z, &zi)));
        z = zi.clone();
        z[j] = yb;
        others.push(("current state", h(&i1, 3, &z0, &z)));
    }
    let mut a = i1.clone();
    a.commit_w = point::<C>(y);
    others.push(("witness commitment", h(&a, 3, &z0, &zi)));
    a = i1.clone();
    a.commit_e = point::<C>(y);
    others.push(("error commitment", h(&a, 3, &z0, &zi)));
    a = i1.clone();
    a.u = y;
    others.push(("u", h(&a, 3, &z0, &zi)));
    for j in 0..nx {
        a = i1.clone();
        let mut x = a.x.get();
        x[j] = y;
        a.x = DenseVectors::new(x);
        others.push(("x", h(&a, 3, &z0, &zi)));
    }
    kogsym::set_flag("quiet", true);
    for (n, v) in others {
        goal_true(&format!("distinct: digest and {}", n), v != h0);
    }
    goal_true("distinct: same inputs, same digest", h(&i1, 3, &z0, &zi) == h0);
    kogsym::set_flag("quiet", false);
}

// ---------------------------------------------------------------- the hash and its circuit
fn hex_field<F: PrimeField>(s: &str) -> F {
    let b = F::from(1 << 32);
    let h = format!("{:0>64}", s);
    (0..8).fold(F::zero(), |v, i| v * b + F::from(u64::from_str_radix(&h[8 * i..8 * i + 8], 16).unwrap()))
}
fn constants<F: PrimeField>(path: &str) -> Vec<F> {
    std::fs::read_to_string(path).unwrap().lines().map(hex_field).collect()
}
/// Feistel network with the seventh power; the intermediate states are announced
fn spec_hash<F: Sym>(cs: &[F], mut l: F, mut r: F) -> F {
    for c in cs {
        let t = l + *c;
        let t2 = t * t;
        let p = t2 * t2 * t2 * t;
        let n = p + r;
        if kogsym::symbolic() {
            n.say("CUT", "state");
            p.say("ALIASED", "power");
            (n - r).say("ALIAS", "power");
        }
        r = l;
        l = n;
    }
    l
}
fn spec_sponge<F: Sym>(cs: &[F], state: &[F]) -> F {
    state.iter().fold(F::zero(), |acc, s| acc + *s + spec_hash(cs, *s, acc))
}
fn perm<F: Sym>(path: &str) {
    let cs = constants::<F>(path);
    let (x, k) = (F::sym("x"), F::sym("key"));
    let h = zknova::hash::Mimc::<46, F>::default();
    goal_true("number of rounds", cs.len() == 46 && h.constants.len() == 46);
    for (a, b) in h.constants.iter().zip(cs.iter()) {
        (*a - *b).say("GOAL0", "round constant");
    }
    let s = spec_hash(&cs, x, k);
    (h.hash(x, k) - s).say("GOAL0", "the permutation");
}
trait Coords: CircuitDriver {
    fn coords(x: Self::Base, y: Self::Base) -> Self::Affine;
}
impl Coords for Bn254Driver {
    fn coords(x: Fq, y: Fq) -> Self::Affine {
        bn_254::G1Affine { x, y, is_infinity: false }
    }
}
impl Coords for GrumpkinDriver {
    fn coords(x: Fr, y: Fr) -> Self::Affine {
        grumpkin::Affine { x, y, is_infinity: false }
    }
}
/// the low n bits of the canonical integer of `f` as an element of the other field
fn truncated<F: PrimeField, G: PrimeField>(f: F, n: usize) -> G {
    f.to_bits()[256 - n..].iter().fold(G::zero(), |v, b| v + v + G::from(*b as u64))
}
fn eval<F: PrimeField>(r: &SparseRow<F>, x: &[F], w: &[Option<F>]) -> Option<F> {
    r.0.iter().try_fold(F::zero(), |s, (wire, c)| {
        Some(s + match wire {
            Wire::Instance(i) => x[*i as usize],
            Wire::Witness(i) => w[*i as usize]?,
        } * *c)
    })
}
/// native sponge and in-circuit sponge over the same sequence.  w, i, c: element (witness, public, constant); s: sum of two
/// wires; m: multiple of a product; p: point; o: identity point; v: two elements at once
fn sponge<C: Coords, E: CircuitDriver<Base = C::Scalar, Scalar = C::Base>>(path: &str, kinds: &str, nbits: usize)
where
    C::Base: Sym,
    C::Scalar: Sym,
{
    kogsym::set_flag("group", false);
    let cs = constants::<C::Base>(path);
    let mut circuit = R1cs::<E>::default();
    let mut ro = zknova::hash::MimcRO::<46, C>::default();
    let mut rc = zknova::circuit::transcript::MimcROCircuit::<46, C>::default();
    let mut state = vec![];
    let k = |i: usize, s: &str| C::Base::sym(&format!("{}{}", s, i));
    for (i, ch) in kinds.chars().filter(|c| *c != '_').enumerate() {
        let v = if ch == 'c' { C::Base::from(12345 + i as u64) } else { k(i, "a") };
        let w = |c: &mut R1cs<E>, v| FieldAssignment::witness(c, v);
        match ch {
            'w' | 'i' | 'c' | 's' | 'm' => {
                let (fa, v) = match ch {
                    'w' => (w(&mut circuit, v), v),
                    'i' => (FieldAssignment::instance(&mut circuit, v), v),
                    'c' => (FieldAssignment::constant(&v), v),
                    's' => (&w(&mut circuit, v) + &w(&mut circuit, k(i, "b")), v + k(i, "b")),
                    _ => {
                        let (p, q) = (w(&mut circuit, v), w(&mut circuit, k(i, "b")));
                        let m = FieldAssignment::mul(&mut circuit, &p, &q);
                        (&(&m + &m) - &p, v * k(i, "b") + v * k(i, "b") - v)
                    }
                };
                ro.append(v);
                rc.append(fa);
                state.push(v);
            }
            'v' => {
                let u = k(i, "b");
                ro.append_vec(vec![v, u]);
                let q = vec![w(&mut circuit, v), w(&mut circuit, u)];
                rc.append_vec(q);
                state.extend([v, u]);
            }
            _ => {
                let p = if ch == 'o' { <C::Affine as Group>::ADDITIVE_IDENTITY } else { C::coords(v, k(i, "b")) };
                ro.append_point(p);
                state.extend([p.get_x(), p.get_y(), if ch == 'o' { C::Base::zero() } else { C::Base::one() }]);
                let a = zkstd::circuit::prelude::PointAssignment::witness(&mut circuit, p.get_x(), p.get_y(), ch == 'o');
                rc.append_point(a);
            }
        }
    }
    let want = spec_sponge(&cs, &state);
    let (x0, w0) = (circuit.x(), circuit.w());
    let m0 = circuit.m();
    if !kogsym::symbolic() {
        let d: C::Scalar = truncated(want, nbits);
        goal_true("native digest", ro.squeeze(nbits) == d);
        let sat = circuit.is_sat();
        let o = rc.squeeze(&mut circuit, nbits);
        goal_true("satisfied", !sat || circuit.is_sat());
        goal_true("the digest in the circuit", o.value(&circuit) == truncated(want, nbits));
        return;
    }
    // native: exactly one value is looked at bitwise, the digest
    kogsym::memo_set("concretized", vec![]);
    let out = ro.squeeze(nbits);
    match &kogsym::memo_get("concretized").unwrap()[..] {
        [l] => {
            (kogsym::cast::<C::Base>(*l) - want).say("GOAL0", "native digest");
            let d: C::Scalar = truncated(kogsym::cast::<C::Base>(kogsym::shadow_of(l)), nbits);
            (out - d).say("GOAL0", "bits of the digest");
        }
        [] => {
            let d: C::Scalar = truncated(want, nbits);
            (out - d).say("GOAL0", "constant digest");
        }
        _ => panic!("kogsym: several values looked at bitwise"),
    }
    // circuit: the constraints from here on determine every new wire
    kogsym::set_flag("bitgadget", true);
    kogsym::set_flag("symbits", true);
    let out = rc.squeeze(&mut circuit, nbits);
    kogsym::set_flag("symbits", false);
    kogsym::set_flag("bitgadget", false);
    let memo = kogsym::memo_get("bitgadget").unwrap_or_default();
    if memo.len() != 1 {
        panic!("kogsym: {} decompositions", memo.len());
    }
    goal_true("no new public wires", circuit.x().len() == x0.len());
    let (arg, n) = (memo[0][0] as usize, memo[0][1] as usize);
    let honest = circuit.w();
    let mut w: Vec<Option<C::Base>> = w0.iter().map(|v| Some(*v)).collect();
    w.resize(honest.len(), None);
    for j in arg + 1..arg + 257 {
        w[j] = Some(honest[j]);
    }
    let (ma, mb, mc) = circuit.matrices();
    for i in m0 as usize..circuit.m() as usize {
        let (a, b, c) = (&ma.0[i], &mb.0[i], &mc.0[i]);
        let (va, vb) = match (eval(a, &x0, &w), eval(b, &x0, &w)) {
            (Some(a), Some(b)) => (a, b),
            _ => panic!("kogsym: a constraint over unknown wires"),
        };
        let unknown: Vec<usize> = c.0.iter().filter_map(|(t, _)| match *t {
            Wire::Witness(k) if w[k as usize].is_none() => Some(k as usize),
            _ => None,
        }).collect();
        match unknown[..] {
            [] => (va * vb - eval(c, &x0, &w).unwrap()).say("GOAL0", "a constraint between known wires"),
            [k] => {
                let mut coef = C::Base::zero();
                let mut rest = C::Base::zero();
                for (t, q) in c.0.iter() {
                    if *t == Wire::Witness(k as u64) {
                        coef = *q;
                    } else {
                        rest = rest + eval(&SparseRow(vec![(*t, *q)]), &x0, &w).unwrap();
                    }
                }
                w[k] = Some((va * vb - rest) * coef.invert().unwrap());
            }
            _ => panic!("kogsym: a constraint with two unknown wires"),
        }
    }
    for (k, v) in w.iter().enumerate() {
        match v {
            Some(v) => (*v - honest[k]).say("GOAL0", "the honest value is the only one"),
            None => panic!("kogsym: an unconstrained wire"),
        }
    }
    (w[arg].unwrap() - want).say("GOAL0", "the digest in the circuit");
    goal_true("enough bits", n >= nbits);
    let bits = &honest[arg + 257 - nbits..arg + 257];
    let spelled = bits.iter().fold(C::Base::zero(), |v, b| v + v + *b);
    (eval(out.inner(), &x0, &w).unwrap() - spelled).say("GOAL0", "the low bits of the digest");
}

// ---------------------------------------------------------------- recursion
#[derive(Debug, Clone, Default, PartialEq, Eq)]
struct Fun<F: PrimeField>(std::marker::PhantomData<F>);
impl<F: PrimeField> Encode for Fun<F> {
    fn encode(&self) -> std::vec::Vec<u8> {
        vec![]
    }
}
impl<F: PrimeField> Decode for Fun<F> {
    fn decode<I: parity_scale_codec::Input>(_: &mut I) -> Result<Self, parity_scale_codec::Error> {
        Ok(Self::default())
    }
}
fn step_of<F: PrimeField>(z: F) -> F {
    z * z + z + F::from(5)
}
impl<F: PrimeField> FunctionCircuit<F> for Fun<F> {
    fn invoke(z: &DenseVectors<F>) -> DenseVectors<F> {
        DenseVectors::new(vec![step_of(z[0])])
    }
    fn invoke_cs<C: CircuitDriver<Scalar = F>>(cs: &mut R1cs<C>, z: Vec<FieldAssignment<F>>) -> Vec<FieldAssignment<F>> {
        let s = FieldAssignment::mul(cs, &z[0], &z[0]);
        vec![&(&s + &z[0]) + &FieldAssignment::constant(&F::from(5))]
    }
}
/// both fields of the cycle are modelled as one in which values cross as they are; points are logarithms, the sponge an oracle
fn model<C: CircuitDriver>()
where
    C::Scalar: Sym,
    C::Base: Sym,
{
    C::Scalar::sym("one_field");
    for f in ["onefield", "ro", "ivc"] {
        kogsym::set_flag(f, true);
    }
    C::Scalar::sym("one_field");
    C::Base::sym("other_field");
    fn order<F: PrimeField, G: PrimeField>() {
        let mut b = (-F::one()).to_raw_bytes();
        b[0] += 1;
        let mut l = [0u64; 4];
        for i in 0..4 {
            let mut x = [0u8; 8];
            x.copy_from_slice(&b[8 * i..8 * i + 8]);
            l[i] = u64::from_le_bytes(x);
        }
        kogsym::memo_set(&format!("order {}", kogsym::hex(&kogsym::uncast(G::one()))), vec![l]);
    }
    if kogsym::symbolic() {
        order::<C::Scalar, C::Base>();
        order::<C::Base, C::Scalar>();
    }
}
type Proof<C, E> = RecursiveProof<C, E, Fun<<C as CircuitDriver>::Scalar>, Fun<<E as CircuitDriver>::Scalar>>;
type Params<C, E> = PublicParams<C, E, Fun<<C as CircuitDriver>::Scalar>, Fun<<E as CircuitDriver>::Scalar>>;
fn ranged<C: CircuitDriver>(p: &str, ck: &PedersenCommitment<C::Affine>, sys: &Sys<C::Scalar>, honest: bool) -> (RelaxedR1csInstance<C>, RelaxedR1csWitness<C>)
where
    C::Scalar: Sym,
{
    let v = |s: &str, n: usize| vars::<C::Scalar>(&format!("{}{}", p, s), n);
    let d = |s: &str| if honest { C::Scalar::zero() } else { C::Scalar::sym(&format!("{}{}", p, s)) };
    let m = sys.rows.len();
    let (x, w, u) = (v("x", sys.nx), v("w", sys.nw), C::Scalar::sym(&format!("{}scale", p)));
    let e = if honest { sys.residuals(u, &x, &w, &vec![C::Scalar::zero(); m]) } else { v("e", m) };
    let i = RelaxedR1csInstance { commit_w: (commit::<C>(ck, &w) + point::<C>(d("dw"))).into(), commit_e: (commit::<C>(ck, &e) + point::<C>(d("de"))).into(), u, x: DenseVectors::new(x) };
    (i, RelaxedR1csWitness { w: DenseVectors::new(w), e: DenseVectors::new(e) })
}
/// parameters and a proof: every check holds exactly when the deviation symbols vanish (or always, when honest)
fn setting<C, E>(texts: [&str; 2], nw: usize, honest: bool) -> (Params<C, E>, Proof<C, E>, Sys<C::Scalar>, Sys<E::Scalar>)
where
    C: CircuitDriver<Base = <E as CircuitDriver>::Scalar>,
    E: CircuitDriver<Base = <C as CircuitDriver>::Scalar>,
    C::Scalar: Sym,
    C::Base: Sym,
{
    let (sp, ep) = system_of::<C>("P", texts[0], 2, nw, honest);
    let (ss, es) = system_of::<E>("S", texts[1], 2, nw, honest);
    let (kp, ks) = (key_of::<C>("P", nw + 1), key_of::<E>("S", nw + 1));
    let (up, wp) = ranged::<C>("p", &kp, &ep, honest);
    let (us, ws) = ranged::<E>("q", &ks, &es, honest);
    let z = |s: &str| DenseVectors::new(vec![C::Scalar::sym(s)]);
    let zb = |s: &str| DenseVectors::new(vec![C::Base::sym(s)]);
    let (z0p, zip, z0s, zis) = (z("Z0"), z("Z1"), zb("Y0"), zb("Y1"));
    let hp: E::Scalar = us.hash::<C>(3, &z0p, &zip);
    let hs: C::Scalar = up.hash::<E>(3, &z0s, &zis);
    let d = |s: &str| if honest { E::Scalar::zero() } else { E::Scalar::sym(s) };
    let x = vec![hp + d("d0"), zknova::driver::scalar_as_base::<C>(hs) + d("d1")];
    let mut w = vars::<E::Scalar>("sw", nw);
    if honest {
        // the last witness value is the product the rows demand
        let n = w.len();
        w[n - 1] = E::Scalar::zero();
        let r = es.residuals(E::Scalar::one(), &x, &w, &vec![E::Scalar::zero(); es.rows.len()]);
        w[n - 1] = r[0];
    }
    let commit_w = (commit::<E>(&ks, &w) + point::<E>(d("dc"))).into();
    let single = (R1csInstance { commit_w, x: DenseVectors::new(x) }, R1csWitness { w: DenseVectors::new(w) });
    let pp = PublicParams { r1cs_shape_primary: sp, r1cs_shape_secondary: ss, ck_primary: kp, ck_secondary: ks, marker: Default::default() };
    let pr = RecursiveProof { i: 3, z0_primary: z0p, z0_secondary: z0s, zi_primary: zip, zi_secondary: zis, instances: (single, (up, wp), (us, ws)), marker: Default::default() };
    (pp, pr, ep, es)
}
fn verify<C, E>(a: &str, b: &str)
where
    C: CircuitDriver<Base = <E as CircuitDriver>::Scalar>,
    E: CircuitDriver<Base = <C as CircuitDriver>::Scalar>,
    C::Scalar: Sym,
    C::Base: Sym,
{
    model::<C>();
    let (pp, pr, ep, es) = setting::<C, E>([a, b], 3, false);
    let got = pr.verify(&pp);
    let ((i, w), (up, wp), (us, ws)) = pr.instances.clone();
    let p = [C::Scalar::sym("pdw"), C::Scalar::sym("pde")];
    let mut rp = ep.residuals(up.u, &up.x.get(), &wp.w.get(), &wp.e.get());
    rp.extend(p);
    let mut rs = es.residuals(us.u, &us.x.get(), &ws.w.get(), &ws.e.get());
    rs.extend(es.residuals(E::Scalar::one(), &i.x.get(), &w.w.get(), &vec![E::Scalar::zero(); es.rows.len()]));
    for s in ["d0", "d1", "dc", "qdw", "qde"] {
        rs.push(E::Scalar::sym(s));
    }
    for r in rp.iter() {
        r.say(if got { "GOAL0" } else { "GOALA" }, "primary");
    }
    for r in rs.iter() {
        r.say(if got { "GOAL0" } else { "GOALA" }, "secondary");
    }
}
/// one component of an accepted proof replaced
fn tamper<C, E>(what: &str, j: usize, d: isize)
where
    C: CircuitDriver<Base = <E as CircuitDriver>::Scalar>,
    E: CircuitDriver<Base = <C as CircuitDriver>::Scalar>,
    C::Scalar: Sym,
    C::Base: Sym,
{
    model::<C>();
    let (pp, pr, _, _) = setting::<C, E>(["ax.by.c", "by.ao.c"], 3, true);
    goal_true("the honest proof verifies", pr.verify(&pp));
    for g in vars::<C::Scalar>("Pg", 4) {
        g.say("HYPN", "a generator is not the identity");
    }
    for g in vars::<E::Scalar>("Sg", 4) {
        g.say("HYPN", "a generator is not the identity");
    }
    let mut q = pr.clone();
    let (y, yb) = (C::Scalar::sym("other"), E::Scalar::sym("Other"));
    fn other<F: Sym>(v: &mut DenseVectors<F>, j: usize, d: isize, y: F) {
        let mut x = v.get();
        match d {
            0 => {
                (x[j] - y).say("HYPN", "another value");
                x[j] = y;
            }
            1 => x.push(y),
            -1 => {
                x.pop();
            }
            -2 => x.clear(),
            _ => x.insert(0, y),
        }
        *v = DenseVectors::new(x);
    }
    fn other_point<C: CircuitDriver>(p: &mut C::Affine, y: C::Scalar)
    where
        C::Scalar: Sym,
    {
        y.say("HYPN", "another point");
        *p = (*p + point::<C>(y)).into();
    }
    match what {
        "i" => q.i = 3 + j as u64 + 1,
        "i-" => q.i = j as u64,
        "z0p" => other(&mut q.z0_primary, j, d, y),
        "z0s" => other(&mut q.z0_secondary, j, d, yb),
        "zip" => other(&mut q.zi_primary, j, d, y),
        "zis" => other(&mut q.zi_secondary, j, d, yb),
        "resplitp" => {
            let v = [q.z0_primary.get(), q.zi_primary.get()].concat();
            q.z0_primary = DenseVectors::new(v[..j].to_vec());
            q.zi_primary = DenseVectors::new(v[j..].to_vec());
        }
        "resplits" => {
            let v = [q.z0_secondary.get(), q.zi_secondary.get()].concat();
            q.z0_secondary = DenseVectors::new(v[..j].to_vec());
            q.zi_secondary = DenseVectors::new(v[j..].to_vec());
        }
        "scw" => other_point::<E>(&mut q.instances.0 .0.commit_w, yb),
        "sx" => other(&mut q.instances.0 .0.x, j, d, yb),
        "sw" => other(&mut q.instances.0 .1.w, j, d, yb),
        "pcw" => other_point::<C>(&mut q.instances.1 .0.commit_w, y),
        "pce" => other_point::<C>(&mut q.instances.1 .0.commit_e, y),
        "pu" => {
            (q.instances.1 .0.u - y).say("HYPN", "another value");
            q.instances.1 .0.u = y;
        }
        "px" => other(&mut q.instances.1 .0.x, j, d, y),
        "pw" => other(&mut q.instances.1 .1.w, j, d, y),
        "pe" => other(&mut q.instances.1 .1.e, j, d, y),
        "qcw" => other_point::<E>(&mut q.instances.2 .0.commit_w, yb),
        "qce" => other_point::<E>(&mut q.instances.2 .0.commit_e, yb),
        "qu" => {
            (q.instances.2 .0.u - yb).say("HYPN", "another value");
            q.instances.2 .0.u = yb;
        }
        "qx" => other(&mut q.instances.2 .0.x, j, d, yb),
        "qw" => other(&mut q.instances.2 .1.w, j, d, yb),
        "qe" => other(&mut q.instances.2 .1.e, j, d, yb),
        _ => panic!("what"),
    }
    goal_true(&format!("{}the altered proof is rejected", if matches!(what, "pw" | "pe" | "qw" | "qe" | "sw" | "scw") { "" } else { "distinct: " }), !q.verify(&pp));
}
/// the circuit of one step from arbitrary inputs: satisfied exactly when the claimed digest is right; what it makes public
fn augmented<C, E>(primary: bool, i: u64, honest: bool)
where
    C: CircuitDriver<Base = <E as CircuitDriver>::Scalar>,
    E: CircuitDriver<Base = <C as CircuitDriver>::Scalar>,
    C::Scalar: Sym,
    C::Base: Sym,
{
    // the circuit over C's scalars speaks about instances over E
    model::<C>();
    let v = |s: &str, n: usize| vars::<E::Scalar>(s, n);
    let s = |s: &str| E::Scalar::sym(s);
    let range = RelaxedR1csInstance::<E> { commit_w: point::<E>(s("cw")), commit_e: point::<E>(s("ce")), u: s("scale"), x: DenseVectors::new(v("x", 2)) };
    let t = point::<E>(s("t"));
    let (z0, zi) = (DenseVectors::new(vec![C::Scalar::sym("Z0")]), DenseVectors::new(vec![C::Scalar::sym("Z1")]));
    let h: E::Scalar = range.hash::<C>(i, &z0, &zi);
    let dev = if honest { E::Scalar::zero() } else { s("d0") };
    let single = R1csInstance::<E> { commit_w: point::<E>(s("CW")), x: DenseVectors::new(vec![h + dev, s("X1")]) };
    let circuit = AugmentedFCircuit::<E, Fun<C::Scalar>> {
        is_primary: primary,
        i,
        z_0: z0.clone(),
        z_i: Some(zi.clone()),
        u_single: Some(single.clone()),
        u_range: Some(range.clone()),
        commit_t: Some(t),
        f: Default::default(),
    };
    let mut cs = R1cs::<C>::default();
    let out = circuit.generate(&mut cs);
    let sat = cs.is_sat();
    if i > 0 && !honest {
        judge(sat, &[dev]);
        if !sat {
            return;
        }
    } else {
        goal_true("satisfied", sat);
    }
    let next = if i == 0 {
        if primary {
            RelaxedR1csInstance::<E> { commit_w: <E::Affine as Group>::ADDITIVE_IDENTITY, commit_e: <E::Affine as Group>::ADDITIVE_IDENTITY, u: E::Scalar::zero(), x: DenseVectors::new(vec![E::Scalar::zero(); 2]) }
        } else {
            RelaxedR1csInstance::<E> { commit_w: single.commit_w, commit_e: <E::Affine as Group>::ADDITIVE_IDENTITY, u: E::Scalar::one(), x: single.x.clone() }
        }
    } else {
        Verifier::verify(t, &range, &single)
    };
    let z1 = step_of(zi[0]);
    goal_true("one new state", out.len() == 1);
    (out[0].value(&cs) - z1).say("GOAL0", "the new state");
    let x = cs.x();
    goal_true("two public values", x.len() == 3);
    let x1: C::Scalar = zknova::driver::scalar_as_base::<E>(single.x[1]);
    (x[1] - x1).say("GOAL0", "the first public value is the digest passed on");
    let d: C::Scalar = zknova::driver::scalar_as_base::<E>(next.hash::<C>(i + 1, &z0, &DenseVectors::new(vec![z1])));
    (x[2] - d).say("GOAL0", "the second public value is the digest of the new state");
}
/// honest steps: every proof on the way verifies
fn steps<C, E>(n: u64)
where
    C: CircuitDriver<Base = <E as CircuitDriver>::Scalar>,
    E: CircuitDriver<Base = <C as CircuitDriver>::Scalar>,
    C::Scalar: Sym,
    C::Base: Sym,
{
    model::<C>();
    let mut pp = Params::<C, E>::setup(&mut OsRng);
    goal_true("the keys are long enough", pp.ck_primary.g.len() as u64 >= pp.r1cs_shape_primary.m().max(pp.r1cs_shape_primary.m_l_1().min(pp.r1cs_shape_primary.m())) && pp.ck_secondary.g.len() as u64 >= pp.r1cs_shape_secondary.m());
    goal_true("two public values", pp.r1cs_shape_primary.l() == 2 && pp.r1cs_shape_secondary.l() == 2);
    if kogsym::symbolic() {
        // fixed generators in place of symbols, and enough of them for the abstract circuit
        let k = |i: usize| (i as u64 + 3).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 8;
        pp.ck_primary = PedersenCommitment { g: (0..512).map(|i| point::<C>(C::Scalar::from(k(i)))).collect() };
        pp.ck_secondary = PedersenCommitment { g: (0..512).map(|i| point::<E>(E::Scalar::from(k(i + 512)))).collect() };
    }
    kogsym::set_flag("goals", true);
    let (mut zp, mut zs) = (C::Scalar::sym("Z0"), E::Scalar::sym("Y0"));
    let mut ivc = Ivc::<C, E, Fun<C::Scalar>, Fun<E::Scalar>>::init(&pp, DenseVectors::new(vec![zp]), DenseVectors::new(vec![zs]));
    for k in 1..n + 1 {
        let p = ivc.prove_step(&pp);
        zp = step_of(zp);
        zs = step_of(zs);
        goal_true("step counter", p.i == k);
        goal_true("lengths", p.zi_primary.len() == 1 && p.zi_secondary.len() == 1 && p.z0_primary.len() == 1 && p.z0_secondary.len() == 1);
        (p.z0_primary[0] - C::Scalar::sym("Z0")).say("GOAL0", "start state");
        (p.z0_secondary[0] - E::Scalar::sym("Y0")).say("GOAL0", "start state");
        (p.zi_primary[0] - zp).say("GOAL0", "state after k steps");
        (p.zi_secondary[0] - zs).say("GOAL0", "state after k steps");
        goal_true("the proof verifies", p.verify(&pp));
    }
    note(format!("note sizes {} {} {} {}", pp.r1cs_shape_primary.m(), pp.r1cs_shape_primary.m_l_1(), pp.r1cs_shape_secondary.m(), pp.r1cs_shape_secondary.m_l_1()));
}

fn go<C: Coords, E>(a: &[String])
where
    C: CircuitDriver<Base = <E as CircuitDriver>::Scalar>,
    E: CircuitDriver<Base = <C as CircuitDriver>::Scalar>,
    C::Scalar: Sym,
    C::Base: Sym,
{
    let g = |i: usize| a.get(i).cloned().unwrap_or_default();
    let u = |i: usize| g(i).parse::<usize>().unwrap_or(0);
    let d = |i: usize| g(i).parse::<isize>().unwrap_or(0);
    match &a[1][..] {
        "pedersen" => pedersen::<C>(u(3), u(4)),
        "pedersen_bind" => pedersen_bind::<C>(u(3), u(4), u(5)),
        "pedersen_key" => pedersen_key::<C>(u(3) as u64),
        "relaxed" => relaxed::<C>(&g(3), u(4), u(5), d(6), d(7), d(8)),
        "strict" => strict::<C>(&g(3), u(4), u(5), d(6), d(7)),
        "relax" => relax::<C>(&g(3), u(4), u(5)),
        "fold" => fold::<C>(&g(3), u(4), u(5)),
        "shape" => shape::<C>(u(3)),
        "digest" => digest::<C, E>(u(3), u(4)),
        "binding" => binding::<C>(u(3)),
        "perm" => perm::<C::Base>(&g(3)),
        "sponge" => sponge::<C, E>(&g(3), &g(4), u(5)),
        "verify" => verify::<C, E>(&g(3), &g(4)),
        "tamper" => tamper::<C, E>(&g(3), u(4), d(5)),
        "augmented" => augmented::<C, E>(u(3) == 1, u(4) as u64, u(5) == 1),
        "steps" => steps::<C, E>(u(3) as u64),
        _ => panic!("job"),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    kogsym::run(move || {
        kogsym::set_flag("group", true);
        if a[2] == "bn" {
            go::<Bn254Driver, GrumpkinDriver>(&a);
        } else {
            go::<GrumpkinDriver, Bn254Driver>(&a);
        }
        note("DONE".to_string());
    });
}
