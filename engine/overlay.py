"""Source overlay: the crates of /repo with symbolic field elements underneath.

A copy of the working tree's sources is generated in which (1) the limb functions of bits_256 dispatch, at run time, to
kogsym when an argument is symbolic, (2) equality, order and zero tests of field elements go through kogsym, which records
each decision, (3) a few functions named below are cut.  Everything else is the code under test, compiled as it is."""
import os
import re
import shutil

import common

ROOT = os.path.join(common.WORK, 'sym')


class Overlay(Exception):
    pass


def match_brace(t, i):
    """index just after the brace closing the one at t[i]"""
    d = 0
    n = len(t)
    while i < n:
        c = t[i]
        if c == '/' and t.startswith('//', i):
            i = t.find('\n', i)
            if i < 0:
                break
            continue
        if c == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == '\\' else 1
        elif c == "'" and re.match(r"'(\\.|[^\\'])'", t[i:i + 4]):
            i += len(re.match(r"'(\\.|[^\\'])'", t[i:i + 4]).group(0)) - 1
        elif c == '{':
            d += 1
        elif c == '}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Overlay('unbalanced braces')


def impls(t, header):
    """(start, open brace, end) of every impl whose header matches"""
    out = []
    for m in re.finditer(r'^[ \t]*impl\b[^{;]*\{', t, re.M):
        h = re.sub(r'\s+', ' ', m.group(0)[:-1]).strip()
        if re.search(header, h):
            out.append((m.start(), m.end() - 1, match_brace(t, m.end() - 1)))
    return out


def fn_at(t, name, lo=0, hi=None):
    """(start of signature, open brace, end, parameter text) of a function"""
    hi = len(t) if hi is None else hi
    for m in re.finditer(r'(pub(\([a-z]+\))? +)?(const +)?fn +%s\b' % re.escape(name), t[lo:hi]):
        s = lo + m.start()
        p = t.index('(', lo + m.end())
        d, i = 0, p
        while True:
            if t[i] == '(':
                d += 1
            elif t[i] == ')':
                d -= 1
                if d == 0:
                    break
            i += 1
        o = t.index('{', i)
        return s, o, match_brace(t, o), t[p + 1:i]
    return None


def params(ps):
    d, cur, out = 0, '', []
    for c in ps:
        if c in '(<[':
            d += 1
        if c in ')>]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [re.sub(r'^(mut|&mut|&)\s*', '', x.strip().split(':')[0].strip()).strip() for x in out]


def prepend(t, impl_header, name, stmt, required=True):
    """insert a statement at the start of function `name` in every matching impl; {0} {1}.. are its parameter names"""
    n = 0
    spans = impls(t, impl_header) if impl_header else [(0, 0, len(t))]
    for s, o, e in reversed(spans):
        f = fn_at(t, name, o, e)
        if f:
            t = t[:f[1] + 1] + ' ' + stmt.format(*params(f[3])) + t[f[1] + 1:]
            n += 1
    if required and not n:
        raise Overlay('function %s not found in %s' % (name, impl_header))
    return t


def publish(t):
    """everything public, so that the harness can call internal functions"""
    t = re.sub(r'pub\((crate|super)\)', 'pub', t)
    for s, o, e in reversed(impls(t, r'^impl(<[^>]*>)? [A-Za-z0-9_$]+(<[^>]*>)?$')):
        b = t[o:e]
        b = re.sub(r'^(    |        )((const |unsafe )*fn )', r'\1pub \2', b, flags=re.M)
        t = t[:o] + b + t[e:]
    t = re.sub(r'^((const |unsafe )*fn |mod |struct |enum )', r'pub \1', t, flags=re.M)
    # struct fields
    for m in reversed(list(re.finditer(r'^(    )*pub struct [^;{(]*\{', t, re.M))):
        e = match_brace(t, m.end() - 1)
        b = re.sub(r'^(\s+)(?!pub\b|//|#)([a-z_0-9]+:)', r'\1pub \2', t[m.end():e], flags=re.M)
        t = t[:m.end()] + b + t[e:]
    return t


NORMAL = '''#[path = "normal_real.rs"]
mod real;
#[allow(unused_imports)]
pub use real::*;
use core::intrinsics::const_eval_select;
type L = [u64; 4];
fn r_add(a: L, b: L, p: L) -> L { kogsym::add(&a, &b, &p) }
fn r_sub(a: L, b: L, p: L) -> L { kogsym::sub(&a, &b, &p) }
fn r_double(a: L, p: L) -> L { kogsym::add(&a, &a, &p) }
fn r_neg(a: L, p: L) -> L { kogsym::neg(&a, &p) }
fn r_mul(a: L, b: L, p: L, inv: u64) -> L { kogsym::mul(&a, &b, &p, inv) }
fn r_square(a: L, p: L, inv: u64) -> L { kogsym::mul(&a, &a, &p, inv) }
fn r_mont(a: [u64; 8], p: L, inv: u64) -> L { kogsym::mont(&a, &p, inv) }
pub const fn add(a: L, b: L, p: L) -> L { unsafe { const_eval_select((a, b, p), real::add, r_add) } }
pub const fn sub(a: L, b: L, p: L) -> L { unsafe { const_eval_select((a, b, p), real::sub, r_sub) } }
pub const fn double(a: L, p: L) -> L { unsafe { const_eval_select((a, p), real::double, r_double) } }
pub const fn neg(a: L, p: L) -> L { unsafe { const_eval_select((a, p), real::neg, r_neg) } }
pub const fn mul(a: L, b: L, p: L, inv: u64) -> L { unsafe { const_eval_select((a, b, p, inv), real::mul, r_mul) } }
pub const fn square(a: L, p: L, inv: u64) -> L { unsafe { const_eval_select((a, p, inv), real::square, r_square) } }
pub const fn mont(a: [u64; 8], p: L, inv: u64) -> L { unsafe { const_eval_select((a, p, inv), real::mont, r_mont) } }
pub fn invert(a: L, _e: L, _one: L, p: L, inv: u64) -> Option<L> { kogsym::invert(&a, &p, inv) }
pub fn pow(a: L, b: L, one: L, p: L, inv: u64) -> L {
    let mut r = one;
    for i in (0..256).rev() {
        r = kogsym::mul(&r, &r, &p, inv);
        if b[i / 64] >> (i % 64) & 1 == 1 {
            r = kogsym::mul(&r, &a, &p, inv);
        }
    }
    r
}
'''

PLAIN = '''        impl $field {
            pub fn sym(name: &str) -> Self { $field($crate::kogsym::var(name, &$p)) }
            pub const SYM_P: [u64; 4] = $p;
            pub fn say(&self, kind: &str, label: &str) { $crate::kogsym::say(kind, label, &self.0, &$p) }
        }
'''
EQ = '''        impl PartialEq for $field {
            fn eq(&self, other: &Self) -> bool { $crate::kogsym::eq(&self.0, &other.0) }
        }
        impl $field {
            pub fn sym(name: &str) -> Self { $field($crate::kogsym::var(name, &$p)) }
            pub const SYM_P: [u64; 4] = $p;
            pub fn say(&self, kind: &str, label: &str) { $crate::kogsym::say(kind, label, &self.0, &$p) }
            pub fn sym_ext_eq(a: &[Self], b: &[Self]) -> Option<bool> {
                if a.len() != 2 { return None; }
                $crate::kogsym::ext_eq(&[a[0].0, a[1].0], &[b[0].0, b[1].0], &$p)
            }
        }
'''
PORD = '''        impl PartialOrd for $field {
            fn partial_cmp(&self, other: &Self) -> Option<Ordering> { Some($crate::kogsym::cmp(&self.0, &other.0)) }
        }
'''
ORD = '''        impl Ord for $field {
            fn cmp(&self, other: &Self) -> Ordering { $crate::kogsym::cmp(&self.0, &other.0) }
        }
'''


def replace_impl(t, header, new):
    sp = impls(t, header)
    if len(sp) != 1:
        raise Overlay('%d implementations match %s' % (len(sp), header))
    s, o, e = sp[0]
    return t[:s] + new + t[e:]


def zkstd_plain(f):
    f['src/lib.rs'] += '\npub use kogsym;\n'
    n = 0
    for p in sorted(f):
        if p.startswith('src/macros/field') and p.endswith('.rs'):
            sp = impls(f[p], r'^impl PartialEq for \$field$')
            if sp:
                f[p] = f[p][:sp[0][0]] + PLAIN + f[p][sp[0][0]:]
                n += 1
    if n != 1:
        raise Overlay('no field equality')


def bn254_plain(f):
    f['src/fqn.rs'] += FQ2


def tree(*parts):
    return os.path.join(common.REPO, *parts)


def read(p):
    if not os.path.exists(p):
        raise Overlay('missing ' + p)
    return open(p).read()


def cargo_toml(t, extra=''):
    secs = re.split(r'(?m)^(?=\[)', t)
    keep = [s for s in secs if not re.match(r'\[\[(test|bench|example)\]\]|\[dev-dependencies\]', s)]
    out = ''.join(keep)
    return out.replace('[dependencies]\n', '[dependencies]\nkogsym = { path = "../kogsym" }\n' + extra, 1)


def zkstd(files):
    f = files
    n = 'src/arithmetic/limbs/bits_256/'
    f[n + 'normal_real.rs'] = f[n + 'normal.rs']
    f[n + 'normal.rs'] = NORMAL
    r = f[n + 'represent.rs']
    r = prepend(r, None, 'to_bits', 'if let Some(b) = kogsym::token_bits(&{0}) {{ return b; }} let {0} = kogsym::concretize(&{0}, "bits");')
    r = prepend(r, None, 'to_nafs', 'let {0} = kogsym::concretize(&{0}, "nafs");')
    r = prepend(r, None, 'random_limbs', 'if let Some(v) = kogsym::random(&{3}) {{ return v; }}')
    f[n + 'represent.rs'] = r
    l = f['src/lib.rs']
    i = l.index('#![no_std]')
    f['src/lib.rs'] = l[:i] + '#![feature(core_intrinsics, const_eval_select)]\n#![allow(warnings)]\n' + l[i:] + '\npub use kogsym;\n'
    done = set()
    for p in sorted(f):
        if not (p.startswith('src/macros/field') and p.endswith('.rs')):
            continue
        t = f[p]
        for h, new in ((r'^impl PartialEq for \$field$', EQ), (r'^impl PartialOrd for \$field$', PORD), (r'^impl Ord for \$field$', ORD)):
            if impls(t, h):
                t = replace_impl(t, h, new)
                done.add(h)
        if impls(t, r'^impl PrimeField for \$field$'):
            t = prepend(t, r'^impl PrimeField for \$field$', 'is_zero', 'return $crate::kogsym::is_zero(&self.0);')
            done.add('is_zero')
        if impls(t, r'^impl From<u64> for \$field$'):
            t = prepend(t, r'^impl From<u64> for \$field$', 'from', 'if let Some(l) = $crate::kogsym::token_bit({0}, &$p) {{ return $field(l); }}')
        if impls(t, r'^impl FftField for \$field$'):
            t = prepend(t, r'^impl FftField for \$field$', 'divn', 'self.0 = $crate::kogsym::concretize(&self.0, "divn");', False)
            t = prepend(t, r'^impl FftField for \$field$', 'is_even', 'let this = Self($crate::kogsym::concretize(&self.0, "is_even"));', False)
            done.add('fft')
        f[p] = t
    g = 'src/circuit/gadget/binary.rs'
    if g in f:
        for fn in ('witness', 'instance'):
            f[g] = prepend(f[g], r'^impl BinaryAssignment$', fn, 'let _window = kogsym::window();', False)
    # decomposition into bits as one step with free bits (flag "bitgadget")
    g = 'src/circuit/gadget/field.rs'
    if g in f:
        f[g] = prepend(f[g], r'^impl<F: PrimeField> FieldAssignment<F>$', 'to_bits', BIT_GADGET, False)
    # recorder for compositions of point gadgets (flag "points")
    g, h = 'src/circuit/gadget/curve.rs', 'src/circuit/gadget/field.rs'
    if g in f and re.search(r'pub struct FieldAssignment<F: PrimeField>\((pub )?SparseRow<F>\);', f.get(h, '')):
        t = f[g]
        try:
            for fn, fmt in (('double', 'kogsym::stdlib::format!("double {{}}", kog_name({0}))'), ('add', 'kogsym::stdlib::format!("add {{}} {{}}", kog_name({0}), kog_name({1}))'),
                            ('select_identity', 'kogsym::stdlib::format!("select {{}} {{}}", kogsym::stdlib::format!("{{}}", {2}.inner()).replace(\' \', ":"), kog_name({0}))'),
                            ('conditional_select', 'kogsym::stdlib::format!("choose {{}} {{}} {{}}", kogsym::stdlib::format!("{{}}", {3}.inner()).replace(\' \', ":"), kog_name({1}), kog_name({2}))')):
                t = prepend(t, r'^impl<F: PrimeField> PointAssignment<F>$', fn, 'if kogsym::flag("points") {{ return kog_point(' + fmt + '); }}')
            f[h] = re.sub(r'pub struct FieldAssignment<F: PrimeField>\((pub )?SparseRow<F>\);', 'pub struct FieldAssignment<F: PrimeField>(pub SparseRow<F>);', f[h])
            f[g] = t + POINT_TOKENS
        except (Overlay, IndexError):
            pass
    if len(done) < 5:
        raise Overlay('field macros have an unexpected shape: %s' % sorted(done))
    for p in sorted(f):
        if p.startswith('src/macros/extension_field') and p.endswith('.rs'):
            t = f[p]
            h = r'^impl PartialEq for \$extension_field$'
            if impls(t, h):
                t = prepend(t, h, 'eq', 'if let Some(r) = $sub_field::sym_ext_eq(&self.0[..], &{1}.0[..]) {{ return r; }}')
                s, o, e = impls(t, h)[0]
                t = t[:s] + '        impl $extension_field { pub fn sym_ext_eq(_a: &[Self], _b: &[Self]) -> Option<bool> { None } }\n' + t[s:]
            h = r'^impl PrimeField for \$extension_field$'
            if impls(t, h):
                t = prepend(t, h, 'is_zero', 'if let Some(r) = $sub_field::sym_ext_eq(&self.0[..], &Self::zero().0[..]) {{ return r; }}')
            f[p] = t


def bn254(files):
    f = files
    t = f['src/fqn.rs']
    P = '&Fq::SYM_P'
    C = lambda x: '&[%s.0[0].0, %s.0[1].0]' % (x, x)
    OUT = 'Self([Fq(r[0]), Fq(r[1])])'
    t = prepend(t, r'^impl Fq2$', 'mul_ext_field', 'if let Some(r) = kogsym::ext_mul(%s, %s, %s) {{ return %s; }}' % (C('self'), C('{1}'), P, OUT))
    t = prepend(t, r'^impl Fq2$', 'square_ext_field', 'if let Some(r) = kogsym::ext_mul(%s, %s, %s) {{ return %s; }}' % (C('self'), C('self'), P, OUT))
    t = prepend(t, r'^impl Fq2$', 'get_invert', 'if let Some(r) = kogsym::ext_inv(%s, %s) {{ return r.map(|r| %s); }}' % (C('self'), P, OUT))
    # inverses cut at a level below, and values of the pairing as tokens (used by P15, P16, P17 only when switched on)
    for ty in ('Fq2', 'Fq6'):
        t = prepend(t, r'^impl %s$' % ty, 'get_invert', 'if kogsym::flag("cut_%sinv") {{ if let Some(r) = sym_cut_inv_%s(self) {{ return r; }} }}' % (ty.lower(), ty.lower()))
    H = 'if kogsym::flag("tok") {{ if let Some(r) = %s {{ return r; }} }}'
    for fn, call in (('mul_ext_field', 'sym_tok("mul", &[&self, &{1}], "")'), ('square_ext_field', 'sym_tok("sqr", &[&self], "")'),
                     ('conjugate', 'sym_tok("conj", &[&self], "")'), ('frobenius_map', 'sym_tok("frob", &[&self], "1")'),
                     ('frobenius_maps', 'sym_tok("frob", &[&self], &{1}.to_string())'), ('get_invert', 'sym_tok("inv", &[&self], "").map(Some)'),
                     ('mul_by_034', 'sym_tok("sparse", &[&self], "")'),
                     ('untwist', 'sym_tok_line(&self, &[{1}.0, {1}.1, {1}.2], &[{2}.x, {2}.y])')):
        t = prepend(t, r'^impl Fq12$', fn, H % call)
    t = prepend(t, r'^impl Fq12$', 'final_exp', 'if kogsym::flag("tok_fe") {{ if let Some(r) = sym_tok("fe", &[&self], "") {{ return Gt(r); }} }}')
    fnc = fn_at(t, 'cyclotomic_square')
    if not fnc:
        raise Overlay('no cyclotomic_square')
    a0 = params(fnc[3])[0]
    t = t[:fnc[1] + 1] + (' if kogsym::flag("tok") { if let Some(r) = sym_tok("cyc", &[&%s], "") { return r; } } '
                          'if kogsym::flag("cyclemma") { kogsym::set_flag("cyclemma", false); let x = Fq12::sym12("x"); let y = cyclotomic_square(x); sym_cyc(&x, &y); kogsym::note("DONE".to_string()); kogsym::finish(); }' % a0) + t[fnc[1] + 1:]
    t += FQ2 + TOK
    f['src/fqn.rs'] = t
    g = f['src/g2.rs']
    g = prepend(g, r'^impl G2Projective$', 'double_eval', 'if kogsym::flag("tok") {{ return sym_step(self, None); }}')
    g = prepend(g, r'^impl G2Projective$', 'add_eval', 'if kogsym::flag("tok") {{ return sym_step(self, Some({1})); }}')
    f['src/g2.rs'] = g + STEP
    # bitwise views
    for n, ty in (('src/fq.rs', 'Fq'), ('src/fr.rs', 'Fr')):
        f[n] = prepend(f[n], r'^impl %s$' % ty, 'lexicographically_largest', 'let this = Self(kogsym::concretize(&self.0, "order"));', False)
        if fn_at(f[n], 'to_costomized_repr'):
            f[n] = prepend(f[n], r'^impl %s$' % ty, 'to_costomized_repr', 'let self_ = Self(kogsym::concretize(&self.0, "customized"));', False)


FQ2 = '''
impl Fq2 {
    pub fn sym(name: &str) -> Self { let r = kogsym::ext_var(name, &Fq::SYM_P); Fq2([Fq(r[0]), Fq(r[1])]) }
    pub fn say(&self, kind: &str, label: &str) {
        kogsym::say(kind, label, &kogsym::ext_norm(&[self.0[0].0, self.0[1].0], &Fq::SYM_P), &Fq::SYM_P)
    }
}
'''


TOK = '''
fn sym_c(a: &Fq12) -> Vec<Fq> { a.0.iter().flat_map(|x| x.0.iter().flat_map(|y| y.0.iter().cloned().collect::<Vec<_>>()).collect::<Vec<_>>()).collect() }
fn sym_name(a: &Fq12) -> String {
    let c = sym_c(a);
    if kogsym::is_tag(&c[0].0) && c[1..].iter().all(|x| x.0 == [0; 4]) { return kogsym::ident(&c[0].0); }
    if c[0].0 == Fq::one().0 && c[1..].iter().all(|x| x.0 == [0; 4]) { return "one".to_string(); }
    "other".to_string()
}
pub fn sym_token() -> Fq12 {
    let mut r = Fq12::zero();
    r.0[0].0[0].0[0] = Fq(kogsym::symbol("tok", &Fq::one().0, &Fq::SYM_P));
    r
}
pub fn sym_tok(op: &str, args: &[&Fq12], extra: &str) -> Option<Fq12> {
    let names: Vec<String> = args.iter().map(|a| sym_name(a)).collect();
    if !names.iter().any(|n| n.starts_with('n')) { return None; }
    let r = sym_token();
    kogsym::note(format!("TOK {} {} {} {}", op, sym_name(&r), names.join(" "), extra));
    Some(r)
}
pub fn sym_tok_line(f: &Fq12, c: &[Fq2], g: &[Fq]) -> Option<Fq12> {
    let r = sym_token();
    let c: Vec<String> = c.iter().map(|x| kogsym::ident(&x.0[0].0) + "," + &kogsym::ident(&x.0[1].0)).collect();
    let g: Vec<String> = g.iter().map(|x| kogsym::ident(&x.0)).collect();
    kogsym::note(format!("TOK line {} {} {} {}", sym_name(&r), sym_name(f), c.join(";"), g.join(";")));
    Some(r)
}
pub fn sym_cut_inv_fq2(a: Fq2) -> Option<Option<Fq2>> {
    if !a.0.iter().any(|x| kogsym::is_tag(&x.0)) { return None; }
    let key = format!("fq2 {} {}", kogsym::ident(&a.0[0].0), kogsym::ident(&a.0[1].0));
    if let Some(v) = kogsym::memo_get(&key) { return Some(Some(Fq2([Fq(v[0]), Fq(v[1])]))); }
    let c = Fq2([Fq(kogsym::shadow_of(&a.0[0].0)), Fq(kogsym::shadow_of(&a.0[1].0))]);
    let r = match c.get_invert() { Some(r) => r, None => return Some(None) };
    let t = Fq2([Fq(kogsym::symbol("ti", &r.0[0].0, &Fq::SYM_P)), Fq(kogsym::symbol("ti", &r.0[1].0, &Fq::SYM_P))]);
    kogsym::memo_set(&key, vec![t.0[0].0, t.0[1].0]);
    (a.0[0] * t.0[0] - a.0[1] * t.0[1] - Fq::one()).say("HYP0", "inverse below");
    (a.0[0] * t.0[1] + a.0[1] * t.0[0]).say("HYP0", "inverse below");
    kogsym::note("CUT fq2".to_string());
    Some(Some(t))
}
pub fn sym_cut_inv_fq6(a: Fq6) -> Option<Option<Fq6>> {
    if !a.0.iter().any(|y| y.0.iter().any(|x| kogsym::is_tag(&x.0))) { return None; }
    let key = format!("fq6 {}", a.0.iter().map(|y| kogsym::ident(&y.0[0].0) + " " + &kogsym::ident(&y.0[1].0)).collect::<Vec<_>>().join(" "));
    if let Some(v) = kogsym::memo_get(&key) { let g = |i: usize| Fq2([Fq(v[2 * i]), Fq(v[2 * i + 1])]); return Some(Some(Fq6([g(0), g(1), g(2)]))); }
    let mut c = a;
    for y in c.0.iter_mut() { for x in y.0.iter_mut() { *x = Fq(kogsym::shadow_of(&x.0)); } }
    let mut t = match c.get_invert() { Some(r) => r, None => return Some(None) };
    for y in t.0.iter_mut() { for x in y.0.iter_mut() { *x = Fq(kogsym::symbol("ti", &x.0, &Fq::SYM_P)); } }
    kogsym::memo_set(&key, t.0.iter().flat_map(|y| y.0.iter().map(|x| x.0).collect::<Vec<_>>()).collect());
    // a t = 1 in Fq2[v] / (v^3 - 9 - u)
    let mut s = [[Fq::zero(); 2]; 3];
    for i in 0..3 { for j in 0..3 {
        let (x, y) = (a.0[i].0, t.0[j].0);
        let (mut re, mut im) = (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]);
        if i + j >= 3 { let (r, m) = (re, im); let n = |z: Fq| { let e = z + z; let e = e + e; let e = e + e; e + z }; re = n(r) - m; im = n(m) + r; }
        s[(i + j) % 3][0] = s[(i + j) % 3][0] + re;
        s[(i + j) % 3][1] = s[(i + j) % 3][1] + im;
    } }
    s[0][0] = s[0][0] - Fq::one();
    for c in s.iter() { c[0].say("HYP0", "inverse below"); c[1].say("HYP0", "inverse below"); }
    kogsym::note("CUT fq6".to_string());
    Some(Some(t))
}
impl Fq12 {
    pub fn sym12(n: &str) -> Self {
        let mut r = Fq12::zero();
        for i in 0..2 { for j in 0..3 { for k in 0..2 { r.0[i].0[j].0[k] = Fq::sym(&format!("{}{}_{}", n, 2 * j + i, k)); } } }
        r
    }
}
pub fn sym_cyc(x: &Fq12, y: &Fq12) {
    // w-basis coordinates: the driver states the relations of the cyclotomic subgroup
    for i in 0..6 { for k in 0..2 {
        x.0[i % 2].0[i / 2].0[k].say("OUT", &format!("x{}_{}", i, k));
        y.0[i % 2].0[i / 2].0[k].say("OUT", &format!("y{}_{}", i, k));
    } }
}
'''
STEP = '''
pub fn sym_step(t: &mut G2Projective, rhs: Option<G2Affine>) -> PairingCoeff {
    let id = |x: &Fq2| kogsym::ident(&x.0[0].0) + "," + &kogsym::ident(&x.0[1].0);
    let fresh = |n: &str| Fq2([Fq(kogsym::symbol(n, &Fq::one().0, &Fq::SYM_P)), Fq(kogsym::symbol(n, &Fq::one().0, &Fq::SYM_P))]);
    let mut s = format!("STEP {} {};{};{}", if rhs.is_some() { "A" } else { "D" }, id(&t.x), id(&t.y), id(&t.z));
    if let Some(r) = rhs {
        s += &format!(" {};{}", id(&r.x), id(&r.y));
    } else {
        s += " -";
    }
    t.x = fresh("tx"); t.y = fresh("ty"); t.z = fresh("tz");
    let c = PairingCoeff(fresh("la"), fresh("lb"), fresh("lc"));
    kogsym::note(format!("{} {};{};{} {};{};{}", s, id(&t.x), id(&t.y), id(&t.z), id(&c.0), id(&c.1), id(&c.2)));
    c
}
'''

BIT_GADGET = '''if kogsym::flag("bitgadget") {{
            let mut memo = kogsym::memo_get("bitgadget").unwrap_or_default();
            let value = {1}.inner().evaluate(&{0}.x, &{0}.w);
            memo.push([{0}.w.len() as u64, {2} as u64, 0, 0]);
            let arg = Self::witness({0}, value);
            Self::enforce_eq({0}, {1}, &arg);
            let mut bits = kogsym::stdlib::vec::Vec::new();
            for b in value.to_bits().iter() {{ bits.push(BinaryAssignment::witness({0}, *b)); }}
            kogsym::memo_set("bitgadget", memo);
            return bits.into_iter().skip(256 - {2}).collect();
        }}'''
POINT_TOKENS = '''
static KOG_POINTS: kogsym::stdlib::sync::atomic::AtomicU64 = kogsym::stdlib::sync::atomic::AtomicU64::new(0);
pub fn kog_name<F: PrimeField>(p: &PointAssignment<F>) -> kogsym::stdlib::string::String {
    let r = |a: &FieldAssignment<F>| {
        let v: kogsym::stdlib::vec::Vec<kogsym::stdlib::string::String> = a.0 .0.iter().map(|(w, c)| kogsym::stdlib::format!("{}*{}", w, if *c == F::zero() { "0" } else if *c == F::one() { "1" } else { "?" })).collect();
        v.join("+").replace(' ', ":")
    };
    kogsym::stdlib::format!("{}/{}/{}", r(&p.x), r(&p.y), r(&p.z))
}
fn kog_point<F: PrimeField>(s: kogsym::stdlib::string::String) -> PointAssignment<F> {
    let k = KOG_POINTS.fetch_add(1, kogsym::stdlib::sync::atomic::Ordering::SeqCst);
    let f = |i: u64| FieldAssignment(crate::matrix::SparseRow(kogsym::stdlib::vec![(crate::r1cs::Wire::Witness((1 << 40) + 3 * k + i), F::one())]));
    let p = PointAssignment { x: f(0), y: f(1), z: f(2) };
    kogsym::note(kogsym::stdlib::format!("TOK {} {}", kog_name(&p), s));
    p
}
'''

CRATES = {'zkstd': zkstd, 'bn254': bn254, 'grumpkin': None, 'groth16': None, 'nova': None}
PLAINS = {'zkstd': zkstd_plain, 'bn254': bn254_plain}


def generate(crates, extra=None, root=ROOT, plain=False):
    """write the overlay tree; extra: crate -> function(files) applied last"""
    os.makedirs(root, exist_ok=True)
    common.sync(os.path.join(common.VERIF, 'harness', 'sym', 'kogsym'), os.path.join(root, 'kogsym'))
    common.sync(os.path.join(common.VERIF, 'harness', 'sym', 'rayon'), os.path.join(root, 'rayon'))
    every = {}
    for c in crates:
        src = tree(c)
        files = every[c] = {}
        for rt, dirs, fs in os.walk(os.path.join(src, 'src')):
            for n in fs:
                p = os.path.join(rt, n)
                files[os.path.relpath(p, src)] = open(p).read()
        if not files:
            raise Overlay('no sources for ' + c)
    if not plain:
        import absgroup
        every = absgroup.apply(every)
    for c in crates:
        src = tree(c)
        files = every[c]
        if plain:
            if PLAINS.get(c):
                PLAINS[c](files)
        elif CRATES.get(c):
            CRATES[c](files)
        if extra and c in extra and not plain:
            extra[c](files)
        if c == 'zkstd':
            files = {k: re.sub(r'pub\((crate|super)\)', 'pub', v) if k.endswith('.rs') else v for k, v in files.items()}
        else:
            files = {k: publish(v) if k.endswith('.rs') else v for k, v in files.items()}
            l = files['src/lib.rs']
            if c == 'bn254':
                l = l.replace('#![no_std]\n', '')
            m = re.search(r'(?m)^(#!\[|mod |pub mod |use |pub use |extern )', l)
            files['src/lib.rs'] = l[:m.start()] + '#![allow(warnings)]\n' + l[m.start():]
        files['Cargo.toml'] = cargo_toml(read(os.path.join(src, 'Cargo.toml')))
        if not plain:  # kogsym records a single thread
            files['Cargo.toml'] = re.sub(r'(?m)^rayon\s*=.*$', lambda m: 'rayon = { path = "../rayon"%s }' % (', optional = true' if 'optional' in m.group(0) else ''), files['Cargo.toml'])
        if os.path.exists(os.path.join(src, 'README.md')):
            files['README.md'] = read(os.path.join(src, 'README.md'))
        dst = os.path.join(root, c)
        for rt, dirs, fs in os.walk(dst):
            for n in fs:
                p = os.path.join(rt, n)
                if os.path.relpath(p, dst) not in files:
                    os.remove(p)
        for k, v in files.items():
            common.put(os.path.join(dst, k), v)


def build(bins, crates, extra=None, features=(), plain=False):
    """-> directory of the built harness binaries"""
    root = ROOT + ('_replay' if plain else '')
    with common.lock('sym'):
        generate(crates, extra, root, plain)
        h = os.path.join(root, 'harness')
        common.sync(os.path.join(common.VERIF, 'harness', 'sym', 'harness'), h, skip=('Cargo.toml',))
        shutil.copy(os.path.join(common.REPO, 'Cargo.lock'), os.path.join(h, 'Cargo.lock'))
        toml = open(os.path.join(common.VERIF, 'harness', 'sym', 'harness', 'Cargo.toml')).read()
        names = {'grumpkin': 'grumpkin', 'groth16': 'zkgroth16', 'nova': 'zknova'}
        for c, n in names.items():
            if c not in crates:
                toml = re.sub(r'(?m)^.*\b%s\b.*\n' % n, '', toml)
        common.put(os.path.join(h, 'Cargo.toml'), toml)
        args = ['build']
        for b in bins:
            args += ['--bin', b]
        if features:
            args += ['--features', ','.join(features)]
        common.cargo(h, args)
    return os.path.join(root, 'harness', 'target', 'debug')
