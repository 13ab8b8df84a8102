//! Symbolic field elements behind the four-limb representation of the code under test.
//!
//! A limb array is either a concrete Montgomery representation or a tag naming a node of an expression graph.  Every
//! operation on a tag adds a node; every node carries a concrete shadow value that decides branches.  Each decision is
//! recorded, so that a run is one symbolic path together with its path condition.
pub use ::std as stdlib;
use std::cell::RefCell;
use std::collections::HashMap;

pub type L = [u64; 4];
const M1: u64 = 0x6b6f_6761_7379_6d31;
const M2: u64 = 0x9e5a_71c3_0d2f_4b17;
const T3: u64 = 0x0053_594d_4e4f_4445; // below the top limb of every modulus
const R3: u64 = 0x0052_4157_4e4f_4445; // the integer value of a node (after a Montgomery exit)
pub const EXT: usize = 100;

#[derive(Clone)]
pub struct Field {
    pub p: L,
    pub inv: u64,
    one: L,
    r2: L,
}

pub struct Node {
    pub op: char,
    pub a: u32,
    pub b: u32,
    pub f: usize,
    pub sh: [L; 2],
    pub name: String,
}

#[derive(Default)]
pub struct Ctx {
    pub fields: Vec<Field>,
    pub nodes: Vec<Node>,
    memo: HashMap<(char, u32, u32, usize), u32>,
    consts: HashMap<(usize, [L; 2]), u32>,
    vars: HashMap<String, u32>,
    input: HashMap<String, [L; 2]>,
    decided: HashMap<u32, bool>,
    pub log: Vec<String>,
    seed: u64,
    fresh: usize,
    pub sym_random: bool,
    concrete: bool,
    memos: HashMap<String, Vec<L>>,
    flags: std::collections::HashSet<String>,
    moduli: Vec<L>,
    handles: Vec<L>,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

// ---------------------------------------------------------------- plain arithmetic (own, for shadows)
fn geq(a: &L, b: &L) -> bool {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i] > b[i];
        }
    }
    true
}
fn sub_raw(a: &L, b: &L) -> (L, bool) {
    let mut r = [0; 4];
    let mut br = false;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(br as u64);
        r[i] = y;
        br = b1 || b2;
    }
    (r, br)
}
fn add_raw(a: &L, b: &L) -> (L, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        let s = a[i] as u128 + b[i] as u128 + c;
        r[i] = s as u64;
        c = s >> 64;
    }
    (r, c != 0)
}
pub fn fadd(a: &L, b: &L, p: &L) -> L {
    let (r, c) = add_raw(a, b);
    if c || geq(&r, p) {
        sub_raw(&r, p).0
    } else {
        r
    }
}
pub fn fsub(a: &L, b: &L, p: &L) -> L {
    let (r, b) = sub_raw(a, b);
    if b {
        add_raw(&r, p).0
    } else {
        r
    }
}
pub fn fmul(a: &L, b: &L, p: &L, inv: u64) -> L {
    let mut t = [0u64; 9];
    for i in 0..4 {
        let mut c = 0u128;
        for j in 0..4 {
            let s = t[i + j] as u128 + a[i] as u128 * b[j] as u128 + c;
            t[i + j] = s as u64;
            c = s >> 64;
        }
        let mut k = i + 4;
        while c != 0 {
            let s = t[k] as u128 + c;
            t[k] = s as u64;
            c = s >> 64;
            k += 1;
        }
    }
    redc(t, p, inv)
}
fn redc(mut t: [u64; 9], p: &L, inv: u64) -> L {
    for i in 0..4 {
        let m = t[i].wrapping_mul(inv);
        let mut c = 0u128;
        for j in 0..4 {
            let s = t[i + j] as u128 + m as u128 * p[j] as u128 + c;
            t[i + j] = s as u64;
            c = s >> 64;
        }
        let mut k = i + 4;
        while c != 0 {
            let s = t[k] as u128 + c;
            t[k] = s as u64;
            c = s >> 64;
            k += 1;
        }
    }
    let r = [t[4], t[5], t[6], t[7]];
    if t[8] != 0 || geq(&r, p) {
        sub_raw(&r, p).0
    } else {
        r
    }
}
pub fn from_mont(a: &L, p: &L, inv: u64) -> L {
    redc([a[0], a[1], a[2], a[3], 0, 0, 0, 0, 0], p, inv)
}
fn finv(a: &L, f: &Field) -> L {
    let e = sub_raw(&f.p, &[2, 0, 0, 0]).0;
    fpow(a, &e, f)
}
fn fpow(a: &L, e: &L, f: &Field) -> L {
    let mut r = f.one;
    for i in (0..256).rev() {
        r = fmul(&r, &r, &f.p, f.inv);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = fmul(&r, a, &f.p, f.inv);
        }
    }
    r
}
pub const Z: L = [0; 4];
pub const ZZ: [L; 2] = [Z, Z];

// ---------------------------------------------------------------- graph
pub fn tag(id: u32) -> L {
    [id as u64, M1, M2, T3]
}
#[inline(always)]
pub fn is_tag(l: &L) -> bool {
    l[3] == T3 && l[1] == M1 && l[2] == M2
}
#[inline(always)]
pub fn is_raw(l: &L) -> bool {
    l[3] == R3 && l[1] == M1 && l[2] == M2
}
pub fn raw(l: &L) -> L {
    [l[0], M1, M2, R3]
}
pub fn unraw(l: &L) -> L {
    [l[0], M1, M2, T3]
}

impl Ctx {
    /// with the flag "onefield" all prime fields are one: small integers, positive or negative, are carried over
    pub fn one_field(&self) -> bool {
        !self.concrete && !self.fields.is_empty() && self.flags.contains("onefield")
    }
    fn montgomery(v: &L, p: &L) -> L {
        let mut one = [1u64, 0, 0, 0];
        for _ in 0..512 {
            one = fadd(&one, &one, p);
        }
        fmul(v, &one, p, invof(p))
    }
    /// n / d or -n / d with small n and d
    fn rational(l: &L, p: &L) -> Option<(L, bool, L)> {
        let v = from_mont(l, p, invof(p));
        let one = [1, 0, 0, 0];
        if v[3] == 0 {
            return Some((v, false, one));
        }
        let w = sub_raw(p, &v).0;
        if w[3] == 0 {
            return Some((w, true, one));
        }
        // Euclid, halfway: r = t v (mod p) with t of alternating sign
        let (mut r0, mut r1, mut t0, mut t1, mut neg) = (*p, v, Z, one, false);
        while r1[2] != 0 || r1[3] != 0 || r1[1] >> 48 != 0 {
            let (mut t, mut q) = (r1, one);
            // r0 = k r1 + rest by shifted subtraction
            let mut st = vec![];
            while t[3] >> 63 == 0 && geq(&r0, &t) {
                st.push((t, q));
                t = add_raw(&t, &t).0;
                q = add_raw(&q, &q).0;
            }
            let (mut rest, mut k) = (r0, Z);
            for (t, q) in st.into_iter().rev() {
                if geq(&rest, &t) {
                    rest = sub_raw(&rest, &t).0;
                    k = add_raw(&k, &q).0;
                }
            }
            if k[1..] != [0, 0, 0] {
                return None;
            }
            // t2 = t0 + k t1 in absolute value
            let mut t2 = t0;
            let mut c = 0u128;
            for i in 0..4 {
                let s = t1[i] as u128 * k[0] as u128 + t2[i] as u128 + c;
                t2[i] = s as u64;
                c = s >> 64;
            }
            if t2[2] != 0 || t2[3] != 0 || t2[1] >> 48 != 0 {
                return None;
            }
            r0 = r1;
            r1 = rest;
            t0 = t1;
            t1 = t2;
            neg = !neg;
        }
        Some((r1, neg, t1))
    }
    fn of_rational(v: &(L, bool, L), p: &L) -> L {
        let fd = Field { p: *p, inv: invof(p), one: Ctx::montgomery(&[1, 0, 0, 0], p), r2: Z };
        let r = fmul(&Ctx::montgomery(&v.0, p), &finv(&Ctx::montgomery(&v.2, p), &fd), p, fd.inv);
        if v.1 {
            fsub(&Z, &r, p)
        } else {
            r
        }
    }
    /// limbs of some field as limbs of the one field
    fn translate(&self, l: &L) -> L {
        let mut found = self.moduli.iter().filter_map(|m| Ctx::rational(l, m)).collect::<Vec<_>>();
        found.sort_by_key(|f| (f.2 != [1, 0, 0, 0], f.2[1], f.2[0]));
        match found.first() {
            Some(v) => Ctx::of_rational(v, &self.fields[0].p),
            None => panic!("kogsym: constant of an unknown field"),
        }
    }
    fn limbs_in(&self, id: u32, p: &L) -> L {
        let l = self.limbs(id);
        if self.one_field() && !is_tag(&l) && *p != self.fields[0].p {
            match Ctx::rational(&l, &self.fields[0].p) {
                Some(v) => return Ctx::of_rational(&v, p),
                None => panic!("kogsym: constant of an unknown field"),
            }
        }
        l
    }
    pub fn field(&mut self, p: &L, inv: u64) -> usize {
        if self.one_field() {
            if !self.moduli.contains(p) {
                self.moduli.push(*p);
            }
            return 0;
        }
        if let Some(i) = self.fields.iter().position(|f| &f.p == p) {
            return i;
        }
        // when the caller has no inv, compute it
        let mut iv = 1u64;
        for _ in 0..6 {
            iv = iv.wrapping_mul(2u64.wrapping_sub(p[0].wrapping_mul(iv)));
        }
        let iv = iv.wrapping_neg();
        assert!(inv == 0 || inv == iv, "kogsym: unexpected INV");
        let mut one = [1u64, 0, 0, 0];
        for _ in 0..256 {
            one = fadd(&one, &one, p);
        }
        let mut r2 = one;
        for _ in 0..256 {
            r2 = fadd(&r2, &r2, p);
        }
        self.fields.push(Field { p: *p, inv: iv, one, r2 });
        self.fields.len() - 1
    }
    fn shop(&self, op: char, a: &[L; 2], b: &[L; 2], f: usize) -> [L; 2] {
        let fd = &self.fields[f % EXT];
        let (p, inv) = (&fd.p, fd.inv);
        match op {
            '+' => [fadd(&a[0], &b[0], p), fadd(&a[1], &b[1], p)],
            '-' => [fsub(&a[0], &b[0], p), fsub(&a[1], &b[1], p)],
            '*' => {
                if f < EXT {
                    [fmul(&a[0], &b[0], p, inv), Z]
                } else {
                    [
                        fsub(&fmul(&a[0], &b[0], p, inv), &fmul(&a[1], &b[1], p, inv), p),
                        fadd(&fmul(&a[0], &b[1], p, inv), &fmul(&a[1], &b[0], p, inv), p),
                    ]
                }
            }
            'I' => {
                if f < EXT {
                    [finv(&a[0], fd), Z]
                } else {
                    let n = finv(&fadd(&fmul(&a[0], &a[0], p, inv), &fmul(&a[1], &a[1], p, inv), p), fd);
                    [fmul(&a[0], &n, p, inv), fsub(&Z, &fmul(&a[1], &n, p, inv), p)]
                }
            }
            _ => panic!("kogsym: op"),
        }
    }
    pub fn konst(&mut self, v: [L; 2], f: usize) -> u32 {
        if let Some(i) = self.consts.get(&(f, v)) {
            return *i;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op: 'C', a: 0, b: 0, f, sh: v, name: String::new() });
        self.consts.insert((f, v), id);
        id
    }
    fn is_const(&self, n: u32) -> bool {
        self.nodes[n as usize].op == 'C'
    }
    pub fn node(&mut self, op: char, mut a: u32, mut b: u32, f: usize) -> u32 {
        let zero = |s: &Ctx, n: u32| s.is_const(n) && s.nodes[n as usize].sh == ZZ;
        let one = |s: &Ctx, n: u32| s.is_const(n) && s.nodes[n as usize].sh == [s.fields[f % EXT].one, Z];
        match op {
            '+' => {
                if zero(self, a) {
                    return b;
                }
                if zero(self, b) {
                    return a;
                }
            }
            '-' => {
                if zero(self, b) {
                    return a;
                }
                if a == b {
                    return self.konst(ZZ, f);
                }
            }
            '*' => {
                if zero(self, a) || zero(self, b) {
                    return self.konst(ZZ, f);
                }
                if one(self, a) {
                    return b;
                }
                if one(self, b) {
                    return a;
                }
            }
            _ => {}
        }
        if (op == '+' || op == '*') && a > b {
            std::mem::swap(&mut a, &mut b);
        }
        let sa = self.nodes[a as usize].sh;
        let sb = self.nodes[b as usize].sh;
        let sh = self.shop(op, &sa, &sb, f);
        if self.is_const(a) && (op == 'I' || self.is_const(b)) {
            return self.konst(sh, f);
        }
        if let Some(i) = self.memo.get(&(op, a, b, f)) {
            return *i;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op, a, b, f, sh, name: String::new() });
        self.memo.insert((op, a, b, f), id);
        id
    }
    /// the node of a limb array, in the field of modulus p or its lift
    pub fn lift(&mut self, l: &L, f: usize) -> u32 {
        if is_tag(l) {
            let id = l[0] as u32;
            let g = self.nodes[id as usize].f;
            if g != f {
                if f == g + EXT {
                    // an element of the base field used in the extension
                    return self.embed(id, f);
                }
                panic!("kogsym: element of another field");
            }
            id
        } else {
            if is_raw(l) {
                panic!("kogsym: integer value of a symbolic element used as a field element");
            }
            let l = if self.one_field() { self.translate(l) } else { *l };
            self.konst([l, Z], f)
        }
    }
    fn embed(&mut self, id: u32, f: usize) -> u32 {
        if let Some(i) = self.memo.get(&('E', id, 0, f)) {
            return *i;
        }
        let sh = self.nodes[id as usize].sh;
        let n = self.nodes.len() as u32;
        self.nodes.push(Node { op: 'E', a: id, b: 0, f, sh, name: String::new() });
        self.memo.insert(('E', id, 0, f), n);
        n
    }
    pub fn fld_of(&self, l: &L) -> Option<usize> {
        if is_tag(l) {
            Some(self.nodes[l[0] as usize].f)
        } else {
            None
        }
    }
    /// limbs of a node: constants of a prime field come back as plain limbs
    pub fn limbs(&self, id: u32) -> L {
        let n = &self.nodes[id as usize];
        if n.op == 'C' && (n.f < EXT || n.sh[1] == Z) {
            n.sh[0]
        } else {
            tag(id)
        }
    }
    pub fn decide_zero(&mut self, d: u32) -> bool {
        let n = &self.nodes[d as usize];
        let z = n.sh == ZZ;
        if n.op == 'C' {
            return z;
        }
        if self.flags.contains("quiet") {
            return z;
        }
        if self.flags.contains("goals") {
            // a zero is claimed to be one everywhere; a nonzero value is taken to be generic
            if z && self.decided.insert(d, z).is_none() {
                self.log.push(format!("GOAL0 {} decided zero", d));
            }
            return z;
        }
        // a product by a constant, a negation: same decision
        if let Some(o) = self.decided.get(&d) {
            return *o;
        }
        self.decided.insert(d, z);
        self.log.push(format!("PATH {} {}", d, z as u8));
        z
    }
    pub fn event(&mut self, s: String) {
        self.log.push(format!("EVENT {}", s));
    }
    fn rnd(&mut self, name: &str, p: &L) -> L {
        // splitmix over name and seed; only shadows depend on it
        let mut h = self.seed ^ 0x9e3779b97f4a7c15;
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(17);
        }
        let mut o = [0; 4];
        loop {
            for x in o.iter_mut() {
                h = h.wrapping_add(0x9e3779b97f4a7c15);
                let mut z = h;
                z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                *x = z ^ (z >> 31);
            }
            o[3] &= 0x3fff_ffff_ffff_ffff;
            if !geq(&o, p) {
                return o;
            }
        }
    }
    pub fn var(&mut self, name: &str, f: usize) -> u32 {
        if let Some(i) = self.vars.get(name) {
            return *i;
        }
        let fd = self.fields[f % EXT].clone();
        let v = match self.input.get(name) {
            Some(v) => [fmul(&v[0], &fd.r2, &fd.p, fd.inv), fmul(&v[1], &fd.r2, &fd.p, fd.inv)],
            None => {
                let a = self.rnd(name, &fd.p);
                let b = if f >= EXT { self.rnd(&format!("{}'", name), &fd.p) } else { Z };
                [a, b]
            }
        };
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op: 'V', a: 0, b: 0, f, sh: v, name: name.to_string() });
        self.vars.insert(name.to_string(), id);
        id
    }
    /// a new symbol whose shadow is given
    pub fn symbol(&mut self, name: &str, f: usize, sh: [L; 2]) -> u32 {
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op: 'V', a: 0, b: 0, f, sh, name: name.to_string() });
        self.vars.insert(name.to_string(), id);
        id
    }
    pub fn fresh(&mut self) -> usize {
        self.fresh += 1;
        self.fresh
    }
    fn dump(&self) -> String {
        let mut o = String::new();
        for (i, f) in self.fields.iter().enumerate() {
            o += &format!("FIELD {} {}\n", i, hex(&f.p));
        }
        for (i, n) in self.nodes.iter().enumerate() {
            let fd = &self.fields[n.f % EXT];
            let v = |l: &L| hex(&from_mont(l, &fd.p, fd.inv));
            match n.op {
                'C' => o += &format!("N {} C {} {} {}\n", i, n.f, v(&n.sh[0]), v(&n.sh[1])),
                'V' => o += &format!("N {} V {} {} {} {}\n", i, n.f, v(&n.sh[0]), v(&n.sh[1]), n.name),
                _ => o += &format!("N {} {} {} {} {}\n", i, n.op, n.f, n.a, n.b),
            }
        }
        for l in &self.log {
            o += l;
            o += "\n";
        }
        o
    }
}

pub fn hex(l: &L) -> String {
    format!("{:016x}{:016x}{:016x}{:016x}", l[3], l[2], l[1], l[0])
}
fn unhex(s: &str) -> L {
    let s = format!("{:0>64}", s);
    let g = |i: usize| u64::from_str_radix(&s[16 * i..16 * i + 16], 16).unwrap();
    [g(3), g(2), g(1), g(0)]
}

// ---------------------------------------------------------------- entry points of the limb functions
fn two(op: char, a: &L, b: &L, p: &L, inv: u64) -> L {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let base = c.field(p, inv);
        let f = if c.fld_of(a) == Some(base + EXT) || c.fld_of(b) == Some(base + EXT) { base + EXT } else { base };
        let x = c.lift(a, f);
        let y = c.lift(b, f);
        let n = c.node(op, x, y, f);
        c.limbs_in(n, p)
    })
}
pub fn add(a: &L, b: &L, p: &L) -> L {
    if coordinate(a) | coordinate(b) != 0 {
        peeked();
        return Z;
    }
    if !is_tag(a) && !is_tag(b) {
        return fadd(a, b, p);
    }
    two('+', a, b, p, 0)
}
pub fn sub(a: &L, b: &L, p: &L) -> L {
    if coordinate(a) | coordinate(b) != 0 {
        peeked();
        return Z;
    }
    if !is_tag(a) && !is_tag(b) {
        return fsub(a, b, p);
    }
    two('-', a, b, p, 0)
}
fn invof(p: &L) -> u64 {
    let mut iv = 1u64;
    for _ in 0..6 {
        iv = iv.wrapping_mul(2u64.wrapping_sub(p[0].wrapping_mul(iv)));
    }
    iv.wrapping_neg()
}
pub fn mul(a: &L, b: &L, p: &L, inv: u64) -> L {
    if coordinate(a) | coordinate(b) != 0 {
        peeked();
        return Z;
    }
    if is_raw(a) || is_raw(b) {
        // an integer value times R^2 is the element again
        let (r, o) = if is_raw(a) { (a, b) } else { (b, a) };
        return CTX.with(|c| {
            let mut c = c.borrow_mut();
            let f = c.field(p, 0);
            let g = c.nodes[r[0] as usize].f;
            if *o == c.fields[f].r2 {
                if f == g {
                    return unraw(r);
                }
                if f < EXT && g < EXT {
                    return tag(c.convert(r[0] as u32, f));
                }
            }
            panic!("kogsym: integer value multiplied");
        });
    }
    if !is_tag(a) && !is_tag(b) {
        return fmul(a, b, p, if inv == 0 { invof(p) } else { inv });
    }
    two('*', a, b, p, inv)
}
impl Ctx {
    /// the element of field f with the same least residue
    pub fn convert(&mut self, id: u32, f: usize) -> u32 {
        if let Some(i) = self.memo.get(&('X', id, 0, f)) {
            return *i;
        }
        let n = &self.nodes[id as usize];
        let g = &self.fields[n.f];
        let v = from_mont(&n.sh[0], &g.p, g.inv);
        let fd = &self.fields[f];
        let v = fmul(&v, &fd.r2, &fd.p, fd.inv);
        let i = self.nodes.len() as u32;
        self.nodes.push(Node { op: 'X', a: id, b: 0, f, sh: [v, Z], name: String::new() });
        self.memo.insert(('X', id, 0, f), i);
        i
    }
}
pub fn neg(a: &L, p: &L) -> L {
    if coordinate(a) != 0 {
        peeked();
        return Z;
    }
    if !is_tag(a) {
        return fsub(&Z, a, p);
    }
    two('-', &Z, a, p, 0)
}
/// Montgomery exit
pub fn mont(a: &[u64; 8], p: &L, inv: u64) -> L {
    let lo = [a[0], a[1], a[2], a[3]];
    if coordinate(&lo) != 0 {
        peeked();
    }
    if is_tag(&lo) {
        return raw(&lo);
    }
    redc([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], 0], p, if inv == 0 { invof(p) } else { inv })
}
pub fn invert(a: &L, p: &L, inv: u64) -> Option<L> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if c.one_field() && !is_tag(a) {
            let fd = Field { p: *p, inv: invof(p), one: Ctx::montgomery(&[1, 0, 0, 0], p), r2: Z };
            return if *a == Z { None } else { Some(finv(a, &fd)) };
        }
        let base = c.field(p, inv);
        let f = c.fld_of(a).unwrap_or(base);
        let n = c.lift(a, f);
        if c.decide_zero(n) {
            None
        } else {
            let i = c.node('I', n, 0, f);
            Some(c.limbs_in(i, p))
        }
    })
}
pub fn eq(a: &L, b: &L) -> bool {
    if coordinate(a) | coordinate(b) != 0 {
        return coordinates_eq(a, b);
    }
    if !is_tag(a) && !is_tag(b) {
        return a == b;
    }
    if a == b {
        return true;
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.fld_of(a).or(c.fld_of(b)).unwrap();
        let f = f.max(c.fld_of(b).unwrap_or(f));
        let x = c.lift(a, f);
        let y = c.lift(b, f);
        let d = c.node('-', x.max(y), x.min(y), f);
        c.decide_zero(d)
    })
}
pub fn is_zero(a: &L) -> bool {
    if coordinate(a) != 0 {
        if coordinate(a) == PZ {
            return is_zero(&inside(a));
        }
        peeked();
        return false;
    }
    if !is_tag(a) {
        return *a == Z;
    }
    CTX.with(|c| c.borrow_mut().decide_zero(a[0] as u32))
}
/// the shadow of an element in place of a value the code looks at bitwise: recorded
pub fn concretize(a: &L, what: &str) -> L {
    if !is_tag(a) && !is_raw(a) {
        return *a;
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.event(format!("concretized {} {}", what, a[0]));
        c.memos.entry("concretized".to_string()).or_insert(vec![]).push(tag(a[0] as u32));
        let n = &c.nodes[a[0] as usize];
        let fd = &c.fields[n.f % EXT];
        if is_raw(a) {
            from_mont(&n.sh[0], &fd.p, fd.inv)
        } else {
            n.sh[0]
        }
    })
}
/// the bits of a symbolic value as tokens: byte k >= 2 stands for bit k, counted from the most significant of 256
pub fn token_bits(a: &L) -> Option<Vec<u8>> {
    if !is_raw(a) || !flag("symbits") {
        return None;
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let n = &c.nodes[a[0] as usize];
        let fd = &c.fields[n.f % EXT];
        let v = from_mont(&n.sh[0], &fd.p, fd.inv);
        let k = c.fresh();
        c.memos.insert("symbits".to_string(), vec![v, [k as u64, a[0], 0, 0]]);
        c.log.push(format!("BITSOF {} {}", a[0], k));
        let mut r: Vec<u8> = (0..=255).collect();
        r[1] = 0;
        Some(r)
    })
}
/// while alive, small integers are tokens of bits
pub struct Window;
impl Drop for Window {
    fn drop(&mut self) {
        set_flag("symwin", false)
    }
}
pub fn window() -> Window {
    set_flag("symwin", true);
    Window
}
/// the element of the token of a bit
pub fn token_bit(b: u64, p: &L) -> Option<L> {
    if b < 2 || b > 255 || !flag("symbits") || !flag("symwin") {
        return None;
    }
    let m = memo_get("symbits")?;
    let i = 255 - b as usize;
    let v = m[0][i / 64] >> (i % 64) & 1;
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0);
        let name = format!("bit{}_{}", m[1][0], b);
        let sh = if v == 1 { c.fields[f].one } else { Z };
        if let Some(i) = c.vars.get(&name) {
            return Some(tag(*i));
        }
        let n = c.symbol(&name, f, [sh, Z]);
        Some(tag(n))
    })
}
pub fn cmp(a: &L, b: &L) -> std::cmp::Ordering {
    let x = concretize(a, "cmp");
    let y = concretize(b, "cmp");
    for i in (0..4).rev() {
        if x[i] != y[i] {
            return x[i].cmp(&y[i]);
        }
    }
    std::cmp::Ordering::Equal
}

// ---------------------------------------------------------------- the quadratic extension as one abstract field
pub fn ext_sym(a: &[L; 2]) -> bool {
    CTX.with(|c| {
        let c = c.borrow();
        a.iter().any(|l| c.fld_of(l).map_or(false, |f| f >= EXT))
    })
}
/// (n, m) stands for n + u m
fn ext_lift(c: &mut Ctx, a: &[L; 2], f: usize) -> u32 {
    if !is_tag(&a[0]) && !is_tag(&a[1]) {
        return c.konst([a[0], a[1]], f);
    }
    let x = c.lift(&a[0], f);
    if a[1] == Z {
        return x;
    }
    let y = c.lift(&a[1], f);
    let one = c.fields[f % EXT].one;
    let u = c.konst([Z, one], f);
    let t = c.node('*', u, y, f);
    c.node('+', x, t, f)
}
fn ext_out(c: &Ctx, n: u32) -> [L; 2] {
    let k = &c.nodes[n as usize];
    if k.op == 'C' {
        k.sh
    } else {
        [tag(n), Z]
    }
}
pub fn ext_mul(a: &[L; 2], b: &[L; 2], p: &L) -> Option<[L; 2]> {
    if !ext_sym(a) && !ext_sym(b) {
        return None;
    }
    Some(CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0) + EXT;
        let x = ext_lift(&mut c, a, f);
        let y = ext_lift(&mut c, b, f);
        let n = c.node('*', x, y, f);
        ext_out(&c, n)
    }))
}
pub fn ext_inv(a: &[L; 2], p: &L) -> Option<Option<[L; 2]>> {
    if !ext_sym(a) {
        return None;
    }
    Some(CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0) + EXT;
        let x = ext_lift(&mut c, a, f);
        if c.decide_zero(x) {
            return None;
        }
        let n = c.node('I', x, 0, f);
        Some(ext_out(&c, n))
    }))
}
pub fn ext_eq(a: &[L; 2], b: &[L; 2], p: &L) -> Option<bool> {
    if !ext_sym(a) && !ext_sym(b) {
        return None;
    }
    Some(CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0) + EXT;
        let x = ext_lift(&mut c, a, f);
        let y = ext_lift(&mut c, b, f);
        let d = c.node('-', x.max(y), x.min(y), f);
        c.decide_zero(d)
    }))
}
/// a fresh element of the extension
pub fn ext_var(name: &str, p: &L) -> [L; 2] {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0) + EXT;
        let n = c.var(name, f);
        if c.concrete {
            return c.nodes[n as usize].sh;
        }
        [tag(n), Z]
    })
}
pub fn ext_norm(a: &[L; 2], p: &L) -> L {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0) + EXT;
        let n = ext_lift(&mut c, a, f);
        tag(n)
    })
}

/// a random field element is a fresh symbol when the job asks for it
pub fn random(p: &L) -> Option<L> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if !c.sym_random {
            return None;
        }
        let k = c.fresh();
        let f = c.field(p, 0);
        let n = c.var(&format!("rnd{}", k), f);
        c.log.push(format!("RANDOM {}", n));
        Some(tag(n))
    })
}
pub fn set_sym_random(v: bool) {
    CTX.with(|c| c.borrow_mut().sym_random = v)
}
// ---------------------------------------------------------------- harness interface
pub fn var(name: &str, p: &L) -> L {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0);
        let n = c.var(name, f);
        if c.concrete {
            return c.nodes[n as usize].sh[0];
        }
        tag(n)
    })
}
fn nid(c: &mut Ctx, l: &L, p: &L) -> u32 {
    let f = c.field(p, 0);
    let f = c.fld_of(l).unwrap_or(f);
    c.lift(l, f)
}
/// a statement about an element, read by the driver: kind is one of HYP0 HYPN GOAL0 GOALN OUT
pub fn say(kind: &str, label: &str, l: &L, p: &L) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let n = nid(&mut c, l, p);
        c.log.push(format!("{} {} {}", kind, n, label));
    })
}
pub fn note(s: String) {
    CTX.with(|c| c.borrow_mut().log.push(s))
}
pub fn goal_true(label: &str, v: bool) {
    note(format!("GOALT {} {}", v as u8, label));
}
pub fn set_flag(n: &str, v: bool) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if v {
            c.flags.insert(n.to_string());
        } else {
            c.flags.remove(n);
        }
    })
}
pub fn flag(n: &str) -> bool {
    CTX.with(|c| c.borrow().flags.contains(n))
}
/// concrete limbs behind an element
pub fn shadow_of(a: &L) -> L {
    if !is_tag(a) {
        return *a;
    }
    CTX.with(|c| c.borrow().nodes[a[0] as usize].sh[0])
}
/// a new symbol with a given value
pub fn symbol(name: &str, sh: &L, p: &L) -> L {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = c.field(p, 0);
        let k = c.fresh();
        let n = c.symbol(&format!("{}{}", name, k), f, [*sh, Z]);
        tag(n)
    })
}
/// false in a replay on the unmodified crates
pub fn symbolic() -> bool {
    CTX.with(|c| !c.borrow().concrete)
}
pub fn memo_get(k: &str) -> Option<Vec<L>> {
    CTX.with(|c| c.borrow().memos.get(k).cloned())
}
pub fn memo_set(k: &str, v: Vec<L>) {
    CTX.with(|c| c.borrow_mut().memos.insert(k.to_string(), v));
}
/// an uninterpreted function of a sequence: its value when the sequence (the same elements, or elements claimed to be the same) was asked before
fn oracle_key(c: &Ctx, name: &str, state: &[L]) -> String {
    let mut key = name.to_string();
    for s in state {
        key += " ";
        key += &if c.one_field() {
            hex(&if is_tag(s) { c.nodes[s[0] as usize].sh[0] } else { c.translate(s) })
        } else {
            ident(s)
        };
    }
    key
}
pub fn oracle_get(name: &str, state: &[L]) -> Option<L> {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let m = c.memos.get(&oracle_key(&c, name, state))?.clone();
        for (a, b) in m[1..].iter().zip(state.iter()) {
            if a != b && (is_tag(a) || is_tag(b)) {
                let (a, b) = (c.lift(a, 0), c.lift(b, 0));
                let d = c.node('-', a.max(b), a.min(b), 0);
                if c.nodes[d as usize].op != 'C' {
                    c.log.push(format!("GOAL0 {} the same element absorbed", d));
                }
            }
        }
        Some(m[0])
    })
}
pub fn oracle_put(name: &str, state: &[L], v: L) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let k = oracle_key(&c, name, state);
        let mut m = vec![v];
        m.extend_from_slice(state);
        c.memos.insert(k, m);
    })
}
/// identity of an element for token logs
pub fn ident(a: &L) -> String {
    if is_tag(a) {
        format!("n{}", a[0])
    } else {
        hex(a)
    }
}
// ---------------------------------------------------------------- abstract groups
/// limbs as a value of a transparent wrapper and back; larger types are padded with zeros
pub fn cast<T: Copy>(l: L) -> T {
    let mut b = [0u64; 64];
    b[..4].copy_from_slice(&l);
    assert!(std::mem::size_of::<T>() <= 512 && std::mem::size_of::<T>() >= 32);
    unsafe { std::mem::transmute_copy(&b) }
}
pub fn uncast<T: Copy>(t: T) -> L {
    assert!(std::mem::size_of::<T>() >= 32);
    unsafe { std::mem::transmute_copy(&t) }
}
/// coordinates carrying a discrete logarithm: a number in a table, the two free bits on top say which coordinate it is
const PX: u64 = 2;
const PY: u64 = 1;
const PZ: u64 = 3;
#[inline(always)]
fn coordinate(a: &L) -> u64 {
    if a[1] == M1 && a[2] == M2 && a[3] & (u64::MAX >> 2) == T3 {
        a[3] >> 62
    } else {
        0
    }
}
fn handle(l: &L, k: u64) -> L {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.handles.push(*l);
        [c.handles.len() as u64 - 1, M1, M2, T3 | k << 62]
    })
}
fn inside(l: &L) -> L {
    CTX.with(|c| c.borrow().handles[l[0] as usize])
}
fn peeked() {
    CTX.with(|c| c.borrow_mut().event("coordinates of an abstract point".to_string()));
}
pub fn abs_put<B: Copy>(l: L) -> (B, B) {
    (cast(handle(&l, PX)), cast(handle(&l, PY)))
}
/// projective coordinates: they say nothing but whether the third is zero
pub fn abs_proj<B: Copy>(l: L) -> B {
    cast(handle(&l, PZ))
}
pub fn abs_get<B: Copy>(x: &B, y: &B) -> Option<L> {
    let (x, y) = (uncast(*x), uncast(*y));
    match (coordinate(&x), coordinate(&y)) {
        (PX, PY) | (PZ, PZ) => Some(inside(&x)),
        _ => None,
    }
}
/// first coordinates agree for a point and its opposite, second ones (taken to) for equal points
fn coordinates_eq(a: &L, b: &L) -> bool {
    if a == b {
        return true;
    }
    let (k, l) = (coordinate(a), coordinate(b));
    if k == l && inside(a) == inside(b) {
        return true;
    }
    if k != l || k == PZ {
        peeked();
        return false;
    }
    let (a, b) = (inside(a), inside(b));
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let f = match c.fld_of(&a).or(c.fld_of(&b)) {
            Some(f) => f,
            None => {
                c.event("coordinates of concrete points".to_string());
                return false;
            }
        };
        let (x, y) = (c.lift(&a, f), c.lift(&b, f));
        let mut d = c.node('-', x.max(y), x.min(y), f);
        if k == PX {
            let s = c.node('+', x.max(y), x.min(y), f);
            d = c.node('*', d.max(s), d.min(s), f);
        }
        c.decide_zero(d)
    })
}
pub fn log_len() -> usize {
    CTX.with(|c| c.borrow().log.len())
}

/// one job: inputs on stdin ("name hex [hex]" per line, "@seed n"), graph and log on stdout
pub fn run(job: impl FnOnce() + std::panic::UnwindSafe) {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for l in s.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() < 2 {
                continue;
            }
            if w[0] == "@concrete" {
                c.concrete = true;
            } else if w[0] == "@seed" {
                c.seed = w[1].parse().unwrap();
            } else {
                c.input.insert(w[0].to_string(), [unhex(w[1]), if w.len() > 2 { unhex(w[2]) } else { Z }]);
            }
        }
    });
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string().replace('\n', " ");
        let _ = CTX.try_with(|c| {
            if let Ok(mut c) = c.try_borrow_mut() {
                c.log.push(format!("PANIC {}", m));
            } else {
                println!("PANIC while borrowed: {}", m);
            }
        });
    }));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
    finish();
}
/// print graph and log, end the process
pub fn finish() {
    let d = CTX.with(|c| match c.try_borrow() {
        Ok(c) => c.dump(),
        Err(_) => "PANIC in kogsym\n".to_string(),
    });
    use std::io::Write;
    std::io::stdout().write_all(d.as_bytes()).unwrap();
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}
