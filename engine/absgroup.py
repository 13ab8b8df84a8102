"""Abstract groups: with the flag "group" on, a point of a Weierstrass curve is its discrete logarithm, an element of the
scalar field graph (justified by P09-P13: the operations are those of a cyclic group of that order), and a pairing value is
the product of two logarithms (P16, P17)."""
import re

import overlay
from overlay import Overlay, prepend, impls, fn_at, params

GENERIC = '''
// ---- points as discrete logarithms (flag "group")
use crate::common::{IntGroup as _, Ring as _};
fn kog_conv<S: Copy, T: Copy>(s: S) -> T { kogsym::cast(kogsym::uncast(s)) }
pub fn kog_on() -> bool { kogsym::flag("group") }
pub fn kog_dlp<P: BNProjective>(p: &P) -> P::Scalar {
    if let Some(l) = kogsym::abs_get(&p.get_x(), &p.get_y()) { return kogsym::cast(l); }
    if p.get_z() == P::Base::zero() { return P::Scalar::zero(); }
    kog_other(&(p.get_x(), p.get_y()), &(P::ADDITIVE_GENERATOR.get_x(), P::ADDITIVE_GENERATOR.get_y()))
}
pub fn kog_dla<A: BNAffine>(p: &A) -> A::Scalar {
    if let Some(l) = kogsym::abs_get(&p.get_x(), &p.get_y()) { return kogsym::cast(l); }
    if p.is_identity() { return A::Scalar::zero(); }
    kog_other(&(p.get_x(), p.get_y()), &(A::ADDITIVE_GENERATOR.get_x(), A::ADDITIVE_GENERATOR.get_y()))
}
fn kog_other<B: PrimeField, S: PrimeField>(p: &(B, B), g: &(B, B)) -> S {
    if p == g { return S::one(); }
    if p.0 == g.0 { return -S::one(); }
    kogsym::note(kogsym::stdlib::format!("EVENT concrete point"));
    S::zero()
}
pub fn kog_proj<P: BNProjective>(s: P::Scalar) -> P {
    let h: P::Base = kogsym::abs_proj(kogsym::uncast(s));
    P::new_unchecked(h, h, h)
}
pub fn kog_aff<A: BNAffine>(s: A::Scalar) -> A {
    let (x, y) = kogsym::abs_put(kogsym::uncast(s));
    A::new_unchecked(x, y)
}
'''


def zkstd(f):
    p = 'src/arithmetic/points/weierstrass.rs'
    t = f[p]
    H = 'if kogsym::flag("group") {{ return %s; }}'
    for fn, e in (('add_affine_point', 'kog_proj(kog_conv(kog_dla(&{0}) + kog_dla(&{1})))'), ('double_affine_point', 'kog_proj(kog_conv(kog_dla(&{0}).double()))'),
                  ('add_mixed_point', 'kog_proj(kog_conv::<_, <A::Extended as BNCurve>::Scalar>(kog_dla(&{0})) + kog_dlp(&{1}))'), ('add_projective_point', 'kog_proj(kog_dlp(&{0}) + kog_dlp(&{1}))'),
                  ('double_projective_point', 'kog_proj(kog_dlp(&{0}).double())'), ('scalar_point', 'kog_proj(kog_dlp(&{0}) * *{1})')):
        t = prepend(t, None, fn, H % e)
    f[p] = t + GENERIC
    W = '$crate::arithmetic::weierstrass::'
    H = 'if ' + W + 'kog_on() {{ return %s; }}'
    n = 0
    for p in sorted(f):
        if not p.startswith('src/macros/curve') or not p.endswith('.rs'):
            continue
        t = f[p]
        for ty, dl, mk in (('affine', W + 'kog_dla', W + 'kog_aff'), ('projective', W + 'kog_dlp', W + 'kog_proj')):
            T = r'\$' + ty
            if impls(t, r'^impl PartialEq for %s$' % T) and 'BNCurve for' in t:
                t = prepend(t, r'^impl PartialEq for %s$' % T, 'eq', H % ('%s(self) == %s({1})' % (dl, dl)))
                t = prepend(t, r'^impl Group for %s$' % T, 'invert', H % ('Some(%s(-%s(&self)))' % (mk, dl)))
                t = prepend(t, r'^impl CurveGroup for %s$' % T, 'is_on_curve', H % 'true')
                # only for points already abstract: kog_dla asks the original about the others
                t = prepend(t, r'^impl CurveGroup for %s$' % T, 'is_identity', 'if $crate::kogsym::abs_get(&self.x, &self.y).is_some() {{ return %s(self).is_zero(); }}' % dl)
                n += 1
            if ty == 'affine' and impls(t, r'^impl BNAffine for %s$' % T):
                t = prepend(t, r'^impl BNAffine for %s$' % T, 'to_extended', H % (W + 'kog_proj(' + W + 'kog_dla(&self))'))
                t = prepend(t, r'^impl BNAffine for %s$' % T, 'double', H % (W + 'kog_proj(' + W + 'kog_dla(&self).double())'))
                n += 1
            if ty == 'projective' and impls(t, r'^impl BNProjective for %s$' % T):
                t = prepend(t, r'^impl BNProjective for %s$' % T, 'to_affine', H % (W + 'kog_aff(' + W + 'kog_dlp(&self))'))
                t = prepend(t, r'^impl BNProjective for %s$' % T, 'double', H % (W + 'kog_proj(' + W + 'kog_dlp(&self).double())'))
                n += 1
        f[p] = t
    if n != 4:
        raise Overlay('curve macros have an unexpected shape')


def curve(f, files, pairs):
    """operators written out in the curve crates"""
    for p in files:
        for a, pr in pairs:
            t = f[p]
            if 'impl Neg for %s ' % a not in t:
                continue
            W = 'zkstd::arithmetic::weierstrass::'
            for ty, dl, mk in ((a, 'kog_dla', 'kog_aff'), (pr, 'kog_dlp', 'kog_proj')):
                t = prepend(t, r'^impl Neg for %s$' % ty, 'neg', 'if %skog_on() {{ return %s%s(-%s%s(&self)); }}' % (W, W, mk, W, dl))
            f[p] = t


def bn254(f):
    curve(f, [p for p in sorted(f) if p.endswith('.rs')], [('G1Affine', 'G1Projective'), ('G2Affine', 'G2Projective')])
    W = 'zkstd::arithmetic::weierstrass::'
    for p in sorted(f):
        if not p.endswith('.rs'):
            continue
        t = f[p]
        if impls(t, r'^impl From<G2Affine> for G2PairingAffine$'):
            t = prepend(t, r'^impl From<G2Affine> for G2PairingAffine$', 'from', 'if %skog_on() {{ return kog_prepared({0}); }}' % W)
            t = prepend(t, r'^impl G2PairingAffine$', 'is_identity', 'if let Some(s) = kog_prepared_dl(self) {{ return s.is_zero(); }}')
            t += '''
fn kog_prepared(g: G2Affine) -> G2PairingAffine {
    let (x, y): (Fq2, Fq2) = kogsym::abs_put(kogsym::uncast(zkstd::arithmetic::weierstrass::kog_dla(&g)));
    G2PairingAffine { coeffs: vec![PairingCoeff(x, y, y)], is_infinity: false }
}
pub fn kog_prepared_dl(g: &G2PairingAffine) -> Option<Fr> {
    if !kogsym::flag("group") { return None; }
    if g.coeffs.len() == 1 { return kogsym::abs_get(&g.coeffs[0].0, &g.coeffs[0].1).map(kogsym::cast); }
    if g.coeffs.is_empty() { return Some(Fr::zero()); }
    kogsym::note(format!("EVENT concrete prepared point"));
    Some(Fr::zero())
}
'''
        if fn_at(t, 'multi_miller_loop'):
            t = prepend(t, r'^impl AteParing$', 'multi_miller_loop', 'if %skog_on() {{ return kog_miller({0}); }}' % W)
            t += '''
fn kog_miller(pairs: &[(G1Affine, G2PairingAffine)]) -> Fq12 {
    let mut s = crate::Fr::zero();
    for (a, b) in pairs.iter() {
        s += zkstd::arithmetic::weierstrass::kog_dla(a) * crate::g2::kog_prepared_dl(b).unwrap();
    }
    kog_gt(s)
}
pub fn kog_gt(s: crate::Fr) -> Fq12 {
    let mut r = Fq12::zero();
    let (x, y): (Fq, Fq) = kogsym::abs_put(kogsym::uncast(s));
    r.0[0].0[0].0[0] = x;
    r.0[1].0[0].0[0] = y;
    r
}
pub fn kog_gt_dl(a: &Fq12) -> Option<crate::Fr> {
    if !kogsym::flag("group") { return None; }
    if let Some(l) = kogsym::abs_get(&a.0[0].0[0].0[0], &a.0[1].0[0].0[0]) { return Some(kogsym::cast(l)); }
    if a.0[0].0[0].0[0].0 == Fq::one().0 { return Some(crate::Fr::zero()); }
    kogsym::note(format!("EVENT concrete pairing value"));
    Some(crate::Fr::zero())
}
'''
        if impls(t, r'^impl Fq12$') and fn_at(t, 'final_exp'):
            X = 'crate::pairing::kog_gt_dl(&%s)'
            t = prepend(t, r'^impl Fq12$', 'final_exp', 'if let Some(_) = %s {{ return Gt(self); }}' % (X % 'self'))
            t = prepend(t, r'^impl Fq12$', 'mul_ext_field', 'if let Some(a) = %s {{ if let Some(b) = %s {{ return crate::pairing::kog_gt(a + b); }} }}' % (X % 'self', X % '{1}'))
            t = prepend(t, r'^impl Fq12$', 'conjugate', 'if let Some(a) = %s {{ return crate::pairing::kog_gt(-a); }}' % (X % 'self'))
        if impls(t, r'^impl PartialEq for Gt$'):
            t = prepend(t, r'^impl PartialEq for Gt$', 'eq', 'if let Some(a) = crate::pairing::kog_gt_dl(&self.0) {{ return a == crate::pairing::kog_gt_dl(&{1}.0).unwrap(); }}')
        f[p] = t


def grumpkin(f):
    curve(f, [p for p in sorted(f) if p.endswith('.rs')], [('Affine', 'Projective')])


MSM = ('let n = if {0}.len() < {1}.len() {{ {0}.len() }} else {{ {1}.len() }}; let mut kr = C::Extended::ADDITIVE_IDENTITY; '
       'for i in 0..n {{ kr += {0}[i] * {1}[i]; }} return kr;')


def groth16(f):
    for p in sorted(f):
        if p.endswith('.rs') and fn_at(f[p], 'msm_curve_addition') and 'pub fn msm_curve_addition' in f[p]:
            f[p] = prepend(f[p], None, 'msm_curve_addition', 'if zkstd::arithmetic::weierstrass::kog_on() && !zkstd::kogsym::flag("realmsm") {{ ' + MSM + ' }}')


RO_SQUEEZE = '''if kogsym::flag("ro") {{
    let name = format!("ro {{}}", {1});
    let state: Vec<[u64; 4]> = self.state.iter().map(|s| kogsym::uncast(*s)).collect();
    if let Some(v) = kogsym::oracle_get(&name, &state) {{ return kogsym::cast(v); }}
    kogsym::set_sym_random(true);
    let r = <C::Scalar as zkstd::common::Group>::random(&mut zkstd::common::OsRng);
    kogsym::oracle_put(&name, &state, kogsym::uncast(r));
    return r;
}}'''
RO_POINT = 'if kogsym::flag("ro") {{ self.append(kogsym::cast(kogsym::uncast(zkstd::arithmetic::weierstrass::kog_dla(&{1})))); return; }}'
RO_NAT = '''if kogsym::flag("ro") && kogsym::is_tag(&kogsym::uncast(*{0})) {{
    let l = kogsym::uncast(*{0});
    let mut b: Vec<u8> = l.iter().flat_map(|x| x.to_le_bytes()).collect();
    b.push(1);
    return BigInt::from_bytes_le(Sign::Plus, &b);
}}'''
RO_LIMBS = '''if kogsym::flag("ro") && {0}.bits() == 257 {{
    let b = {0}.to_bytes_le().1;
    let mut l = [0u64; 4];
    for i in 0..4 {{ let mut x = [0u8; 8]; x.copy_from_slice(&b[8 * i..8 * i + 8]); l[i] = u64::from_le_bytes(x); }}
    let mut v = vec![F::from(0u64); {2}];
    v[0] = kogsym::cast(l);
    return v;
}}'''


def nova(f):
    """flag "ro": the transcript is an uninterpreted function of what was absorbed; values cross between the fields as they are"""
    hit = set()
    for p in sorted(f):
        if not p.endswith('.rs'):
            continue
        t = f[p]
        if 'impl<const ROUND: usize, C: CircuitDriver> MimcRO<ROUND, C>' in t:
            R = r'^impl<const ROUND: usize, C: CircuitDriver> MimcRO<ROUND, C>$'
            t = prepend(t, R, 'squeeze', RO_SQUEEZE)
            t = prepend(t, R, 'append_point', RO_POINT)
            hit.add('ro')
        for fn, c in (('f_to_nat', RO_NAT), ('nat_to_limbs', RO_LIMBS), ('scalar_as_base', 'if kogsym::flag("ro") && kogsym::is_tag(&kogsym::uncast({0})) {{ return kogsym::cast(kogsym::uncast({0})); }}'),
                      ('base_as_scalar', 'if kogsym::flag("ro") && kogsym::is_tag(&kogsym::uncast({0})) {{ return kogsym::cast(kogsym::uncast({0})); }}')):
            if 'pub fn %s<' % fn in t:
                t = prepend(t, None, fn, c)
                hit.add(fn)
        f[p] = t
    if len(hit) != 5:
        raise Overlay('transcript functions not found')


# ---- circuits over abstract points (flag "ivc"): a point is one wire holding its logarithm, a wide integer one limb, the
# in-circuit sponge the same oracle as the native one
P_NEW = 'Self {{ x: %s, y: FieldAssignment::constant(&F::zero()), z: FieldAssignment::constant(&F::one()) }}'
POINT_HOOKS = {
    'witness': '{{ let d: F = match kogsym::abs_get(&{1}, &{2}) {{ Some(l) => kogsym::cast(l), None => {{ if !{3} {{ kogsym::note(kogsym::stdlib::format!("EVENT concrete point")); }} F::zero() }} }}; return '
               + P_NEW % 'FieldAssignment::witness({0}, d)' + '; }}',
    'identity': '{{ return ' + P_NEW % 'FieldAssignment::constant(&F::zero())' + '; }}',
    'descale': '{{ return self.clone(); }}',
    'add': '{{ return ' + P_NEW % '&self.x + &{1}.x' + '; }}',
    'double': '{{ return ' + P_NEW % '&self.x + &self.x' + '; }}',
    'scalar_point': '{{ let x = FieldAssignment::mul({1}, &self.x, {2}); return ' + P_NEW % 'x' + '; }}',
    'select_identity': '{{ let x = FieldAssignment::mul({1}, &self.x, &FieldAssignment::from({2})); return ' + P_NEW % 'x' + '; }}',
}
BIG_HOOKS = {
    'witness_from_field_assignment': '{{ let mut limbs = vec![FieldAssignment::constant(&F::zero()); {3}]; limbs[0] = {1}.clone(); return Self {{ limbs, params: BigNatParams::new({2}, {3}) }}; }}',
    'mult_mod': '{{ kog_modulus(&{3}.value({1}), &F::one()); let mut limbs = vec![FieldAssignment::constant(&F::zero()); {3}.limbs.len()]; '
                'limbs[0] = FieldAssignment::mul({1}, &self.limbs[0], &{2}.limbs[0]); return Self {{ limbs, params: BigNatParams::new(self.params.limb_width, {3}.limbs.len()) }}; }}',
    'red_mod': '{{ kog_modulus(&{2}.value({1}), &F::one()); return Self {{ limbs: self.limbs.clone(), params: BigNatParams::new(self.params.limb_width, self.limbs.len()) }}; }}',
}
BIG_MODULUS = '''
/// the integers are reduced by the order of the other group
fn kog_modulus<F: Copy>(n: &BigInt, one: &F) {
    let key = format!("order {}", kogsym::hex(&kogsym::uncast(*one)));
    if let Some(v) = kogsym::memo_get(&key) {
        let want = BigInt::from_bytes_le(Sign::Plus, &v[0].iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
        kogsym::goal_true("integers are reduced by the order of the group", *n == want);
    }
}
'''
RO_CIRCUIT = '''if kogsym::flag("ivc") {{
    let name = format!("ro {{}}", {2});
    let state: Vec<[u64; 4]> = self.state.iter().map(|s| kogsym::uncast(s.value({1}))).collect();
    let v: C::Base = match kogsym::oracle_get(&name, &state) {{
        Some(v) => kogsym::cast(v),
        None => {{
            kogsym::set_sym_random(true);
            let r = <C::Base as zkstd::common::Group>::random(&mut zkstd::common::OsRng);
            kogsym::oracle_put(&name, &state, kogsym::uncast(r));
            r
        }}
    }};
    return FieldAssignment::witness({1}, v);
}}'''


def gadgets(every):
    f = every['zkstd']
    g = 'src/circuit/gadget/curve.rs'
    for fn, e in POINT_HOOKS.items():
        f[g] = prepend(f[g], r'^impl<F: PrimeField> PointAssignment<F>$', fn, 'if kogsym::flag("ivc") ' + e)
    f = every['nova']
    hit = set()
    for p in sorted(f):
        if not p.endswith('.rs'):
            continue
        t = f[p]
        if 'impl<F: PrimeField> BigNatAssignment<F>' in t:
            for fn, e in BIG_HOOKS.items():
                t = prepend(t, r'^impl<F: PrimeField> BigNatAssignment<F>$', fn, 'if kogsym::flag("ivc") ' + e)
            t += BIG_MODULUS
            hit.add('big')
        R = 'impl<const ROUND: usize, C: CircuitDriver> MimcROCircuit<ROUND, C>'
        if R in t:
            t = prepend(t, '^' + R + '$', 'squeeze', RO_CIRCUIT)
            t = prepend(t, '^' + R + '$', 'append_point', 'if kogsym::flag("ivc") {{ self.append({1}.get_x()); return; }}')
            hit.add('ro')
        f[p] = t
    if len(hit) != 2:
        raise Overlay('gadgets not found')


TRANSFORMS = {'nova': nova, 'zkstd': zkstd, 'bn254': bn254, 'grumpkin': grumpkin, 'groth16': groth16}


def apply(crates):
    """crates: name -> files; all of the hooks or none"""
    new = {c: dict(f) for c, f in crates.items()}
    try:
        for c, f in new.items():
            if c in TRANSFORMS:
                TRANSFORMS[c](f)
    except (Overlay, KeyError, IndexError) as e:
        print('note: abstract groups not available: %s' % e)
        return crates
    if 'nova' in new:
        more = {c: dict(f) for c, f in new.items()}
        try:
            gadgets(more)
            new = more
        except (Overlay, KeyError, IndexError) as e:
            print('note: abstract gadgets not available: %s' % e)
    return new
