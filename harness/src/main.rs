//! Runs one public operation of libsecp256k1 per input line; prints its result (or `PANIC`).
use libsecp256k1::curve::*;
use libsecp256k1::util::*;
use libsecp256k1::*;
use std::convert::TryFrom;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(b: &[u8]) -> String {
    if b.is_empty() { return "-".into(); }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn a32(s: &str) -> [u8; 32] { let mut a = [0u8; 32]; a.copy_from_slice(&unhex(s)); a }
fn a33(s: &str) -> [u8; 33] { let mut a = [0u8; 33]; a.copy_from_slice(&unhex(s)); a }
fn a64(s: &str) -> [u8; 64] { let mut a = [0u8; 64]; a.copy_from_slice(&unhex(s)); a }
fn a65(s: &str) -> [u8; 65] { let mut a = [0u8; 65]; a.copy_from_slice(&unhex(s)); a }
fn sc(s: &str) -> Scalar { let mut r = Scalar::default(); let _ = r.set_b32(&a32(s)); r }
fn fe(s: &str) -> Field { let mut r = Field::default(); let _ = r.set_b32(&a32(s)); r }
fn shs(s: &Scalar) -> String { hex(&s.b32()) }
fn shf(f: &Field) -> String { let mut g = *f; g.normalize(); hex(&g.b32()) }
fn sk(s: &str) -> SecretKey { SecretKey::parse(&a32(s)).expect("harness: secret key") }
fn pk(s: &str) -> PublicKey { PublicKey::parse_slice(&unhex(s), None).expect("harness: public key") }
fn er(e: Error) -> String { format!("err {:?}", e) }
/// the same element with magnitude 8
fn big(f: &Field) -> Field { f.neg(1).neg(7) }
/// coordinates as hexadecimal digits; a trailing * asks for coordinates of magnitude 8
fn aff(s: &str) -> Affine {
    if s == "inf" { return AFFINE_INFINITY; }
    if let Some(s) = s.strip_suffix('*') { let mut a = aff(s); a.x = big(&a.x); a.y = big(&a.y); return a; }
    let mut a = Affine::default(); a.set_xy(&fe(&s[..64]), &fe(&s[64..128])); a
}
fn sha(a: &Affine) -> String { if a.is_infinity() { "inf".into() } else { format!("{}{}", shf(&a.x), shf(&a.y)) } }
fn shj(j: &Jacobian) -> String {
    if j.is_infinity() { return "inf".into(); }
    let zi = j.z.inv(); let z2 = zi.sqr(); let z3 = z2 * zi;
    format!("{}{}", shf(&(j.x * z2)), shf(&(j.y * z3)))
}
/// point in Jacobian form with the given z
fn jac(s: &str, z: &str) -> Jacobian {
    if s == "inf" { return JACOBIAN_INFINITY; }
    if let Some(s) = s.strip_suffix('*') { let mut j = jac(s, z); j.x = big(&j.x); j.y = big(&j.y); j.z = big(&j.z); return j; }
    let mut j = Jacobian::default(); j.set_ge(&aff(s));
    let mut f = fe(z); f.normalize(); j.rescale(&f); j
}

struct Scripted(Vec<u8>, usize);
impl rand::RngCore for Scripted {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        if self.1 + d.len() > self.0.len() { panic!("rng exhausted"); }
        d.copy_from_slice(&self.0[self.1..self.1 + d.len()]); self.1 += d.len();
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}

fn field_prog(a: &[&str]) -> String {
    let mut st: Vec<Field> = vec![]; let mut out: Vec<String> = vec![];
    for t in a {
        let (op, arg) = match t.find(':') { Some(i) => (&t[..i], &t[i + 1..]), None => (*t, "") };
        let n = st.len();
        match op {
            "b" => st.push(fe(arg)),
            "raw" => {
                // magnitude:limbs, built as a limb-wise sum of elements of magnitude 1
                let v: Vec<u32> = arg.split(',').map(|x| x.parse().unwrap()).collect();
                let m = v[0].max(1);
                let part = |k: u32| -> Vec<u32> { v[1..].iter().map(|x| x / m + if k < x % m { 1 } else { 0 }).collect() };
                let mk = |p: Vec<u32>| Field::new_raw(p[9], p[8], p[7], p[6], p[5], p[4], p[3], p[2], p[1], p[0]);
                let mut f = mk(part(0));
                for k in 1..m { f += &mk(part(k)); }
                st.push(f)
            }
            "int" => st.push(Field::from_int(arg.parse().unwrap())),
            "dup" => { let x = st[n - 1]; st.push(x) }
            "add" => { let y = st.pop().unwrap(); let mut x = st.pop().unwrap(); x += &y; st.push(x) }
            "mul" => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); let mut r = Field::default(); r.mul_in_place(&x, &y); st.push(r) }
            "sqr" => { let x = st.pop().unwrap(); let mut r = Field::default(); r.sqr_in_place(&x); st.push(r) }
            "neg" => { let x = st.pop().unwrap(); st.push(x.neg(arg.parse().unwrap())) }
            "muli" => { st[n - 1].mul_int(arg.parse().unwrap()) }
            "norm" => st[n - 1].normalize(),
            "normv" => st[n - 1].normalize_var(),
            "weak" => st[n - 1].normalize_weak(),
            "inv" => { let x = st.pop().unwrap(); st.push(x.inv()) }
            "invv" => { let x = st.pop().unwrap(); st.push(x.inv_var()) }
            "sqrt" => { let x = st.pop().unwrap(); let (r, ok) = x.sqrt(); out.push(format!("{}", ok as u8)); if ok { st.push(r) } else { st.push(Field::from_int(0)) } }
            "cmov" => { let y = st.pop().unwrap(); st[n - 2].cmov(&y, arg == "1") }
            "sto" => { let x = st.pop().unwrap(); let s: FieldStorage = x.into(); st.push(s.into()) }
            "stocmov" => { let y = st.pop().unwrap(); let x = st.pop().unwrap(); let mut s: FieldStorage = x.into(); let t: FieldStorage = y.into(); s.cmov(&t, arg == "1"); st.push(s.into()) }
            "zero" => out.push(format!("{}", st[n - 1].is_zero() as u8)),
            "odd" => out.push(format!("{}", st[n - 1].is_odd() as u8)),
            "nz" => out.push(format!("{}", st[n - 1].normalizes_to_zero() as u8)),
            "nzv" => out.push(format!("{}", st[n - 1].normalizes_to_zero_var() as u8)),
            "quad" => out.push(format!("{}", st[n - 1].is_quad_var() as u8)),
            "eq" => out.push(format!("{}", (st[n - 2] == st[n - 1]) as u8)),
            "eqv" => out.push(format!("{}", st[n - 2].eq_var(&st[n - 1]) as u8)),
            "cmp" => out.push(format!("{}", st[n - 2].cmp_var(&st[n - 1]) as i8)),
            "b32" => out.push(hex(&st[n - 1].b32())),
            "set" => { let mut f = Field::default(); let ok = f.set_b32(&a32(arg)); out.push(format!("{}", ok as u8)); st.push(if ok { f } else { Field::from_int(0) }) }
            "clear" => st[n - 1].clear(),
            _ => panic!("harness: field op {}", op),
        }
    }
    if let Some(x) = st.last() { out.push(shf(x)); }
    out.join(" ")
}

fn point_op(a: &[&str]) -> String {
    // P zP Q zQ
    let (p, q) = (jac(a[1], a[2]), jac(a[3], a[4]));
    let qa = aff(a[3]);
    let mut rz = Field::default();
    let mut chk = |r: &Jacobian, f: &Field| -> String {
        // ratio contract r.z = p.z * rzr
        let mut l = p.z * *f; l.normalize(); let mut m = r.z; m.normalize();
        format!("{} {}", shj(r), if p.is_infinity() || r.is_infinity() { 1 } else { (l == m) as u8 })
    };
    // the in-place forms write every part of their target, whatever it was before
    let stale = |r: &Jacobian, f: &dyn Fn(&mut Jacobian)| -> String {
        for inf in [true, false] {
            let mut t = Jacobian::default(); t.x = qa.x; t.y = qa.y; t.z = qa.y; t.infinity = inf;
            f(&mut t); if shj(&t) != shj(r) { return format!("in place, target infinity {}: {}", inf, shj(&t)); }
        }
        shj(r)
    };
    match a[0] {
        "dbl" => { let r = p.double_var(None); stale(&r, &|t| t.double_var_in_place(&p, None)) }
        "dblr" => { let r = p.double_var(Some(&mut rz)); chk(&r, &rz) }
        "add" => stale(&p.add_var(&q, None), &|t| t.add_var_in_place(&p, &q, None)),
        "addr" => { let r = p.add_var(&q, Some(&mut rz)); chk(&r, &rz) }
        "addge" => stale(&p.add_ge(&qa), &|t| t.add_ge_in_place(&p, &qa)),
        "addgev" => stale(&p.add_ge_var(&qa, None), &|t| t.add_ge_var_in_place(&p, &qa, None)),
        "addgevr" => { let r = p.add_ge_var(&qa, Some(&mut rz)); chk(&r, &rz) }
        "addzinv" => {
            // Q given as x, y scaled by zQ: (x z^2, y z^3) with bzinv = z^-1
            let z = fe(a[4]); let mut b = Affine::default();
            if a[3] == "inf" { b = AFFINE_INFINITY } else {
                let z2 = z.sqr(); let z3 = z2 * z; b.set_xy(&(qa.x * z2), &(qa.y * z3)); }
            let zi = z.inv(); let mut pp = p; shj(&pp.add_zinv_var(&b, &zi))
        }
        "neg" => {
            let mut an = Affine::default(); an.infinity = true; an.neg_in_place(&qa);
            if sha(&an) != sha(&qa.neg()) { return format!("neg_in_place {}", sha(&an)); }
            format!("{} {}", stale(&p.neg(), &|t| t.neg_in_place(&p)), sha(&qa.neg()))
        }
        "conv" => {
            let mut r1 = Affine::default(); r1.infinity = true; r1.set_gej(&p); let mut r2 = Affine::default(); r2.infinity = true; r2.set_gej_var(&p);
            let r3 = Affine::from_gej(&p); if p.is_infinity() { return format!("{} {} {} inf", sha(&r1), sha(&r2), sha(&r3)); }
            let s: AffineStorage = { let mut n = r1; n.x.normalize(); n.y.normalize(); n.into() }; let r4: Affine = s.into();
            format!("{} {} {} {}", sha(&r1), sha(&r2), sha(&r3), sha(&r4))
        }
        "eqx" => { let f = fe(&a[3][..64]); format!("{}", p.eq_x_var(&f) as u8) }
        "quady" => format!("{}", p.has_quad_y_var() as u8),
        "valid" => format!("{} {}", qa.is_valid_var() as u8, qa.is_infinity() as u8),
        "validinf" => { let mut i = qa; i.infinity = true; format!("{} {}", i.is_valid_var() as u8, i.is_infinity() as u8) }
        "affeq" => format!("{}", (aff(a[1]) == qa) as u8),
        "cmov" => {
            let mut s: AffineStorage = aff(a[1]).into(); let t: AffineStorage = qa.into(); s.cmov(&t, a[5] == "1"); let r: Affine = s.into(); sha(&r)
        }
        "table" => {
            let n: usize = a[5].parse().unwrap();
            let mut prej = vec![Jacobian::default(); n]; let mut zr = vec![Field::default(); n];
            odd_multiples_table(&mut prej, &mut zr, &p);
            let mut o = vec![];
            let mut r = vec![Affine::default(); n];
            set_table_gej_var(&mut r, &prej, &zr);
            for j in &r { o.push(sha(j)); }
            let mut gz = Field::default(); let mut r = vec![Affine::default(); n];
            globalz_set_table_gej(&mut r, &mut gz, &prej, &zr);
            for j in &r { let mut k = Jacobian::default(); k.set_ge(j); k.z = gz; o.push(shj(&k)); }
            o.join(" ")
        }
        _ => panic!("harness: point op"),
    }
}

fn res<T, F: Fn(T) -> String>(r: Result<T, Error>, f: F) -> String { match r { Ok(v) => format!("ok {}", f(v)), Err(e) => er(e) } }
fn spk(p: &PublicKey) -> String { hex(&p.serialize()) }
fn ssig(s: &Signature) -> String { format!("{}{}", shs(&s.r), shs(&s.s)) }
fn sig(s: &str) -> Signature { Signature::parse_standard(&a64(s)).expect("harness: signature") }
fn fmtof(s: &str) -> Option<PublicKeyFormat> {
    match s { "c" => Some(PublicKeyFormat::Compressed), "f" => Some(PublicKeyFormat::Full), "r" => Some(PublicKeyFormat::Raw), _ => None }
}

fn words(l: &[u32]) -> String { l.iter().map(|w| format!("{:08x}", w)).collect() }
unsafe fn raw<T>(v: &T) -> String { hex(std::slice::from_raw_parts(v as *const T as *const u8, std::mem::size_of::<T>())) }

thread_local! {
    static BOXED: std::cell::RefCell<Option<(Box<ECMultContext>, Box<ECMultGenContext>)>> = std::cell::RefCell::new(None);
}
fn with_boxed<R>(f: impl FnOnce(&ECMultContext, &ECMultGenContext) -> R) -> R {
    BOXED.with(|b| {
        let mut b = b.borrow_mut();
        if b.is_none() { *b = Some((ECMultContext::new_boxed(), ECMultGenContext::new_boxed())); }
        let x = b.as_ref().unwrap(); f(&x.0, &x.1)
    })
}
fn ctxs<R>(which: &str, f: impl FnOnce(&ECMultContext, &ECMultGenContext) -> R) -> R {
    if which == "boxed" { with_boxed(f) } else { f(&ECMULT_CONTEXT, &ECMULT_GEN_CONTEXT) }
}

fn exec(line: &str) -> String {
    let a: Vec<&str> = line.split_whitespace().collect();
    match a[0] {
        "fe" => field_prog(&a[1..]),
        "pt" => point_op(&a[1..]),
        "sc" => {
            let x = sc(a[2]); let y = if a.len() > 3 && a[3].len() == 64 { sc(a[3]) } else { Scalar::default() };
            let n = |k: usize| -> usize { a[k].parse().unwrap() };
            match a[1] {
                "add" => { let mut z = x; z += &y; let mut w = x; w += y; format!("{} {} {}", shs(&(x + y)), shs(&z), shs(&w)) }
                "mul" => { let mut z = x; z *= &y; let mut w = x; w *= y; let mut m = Scalar::default(); m.mul_in_place(&x, &y); format!("{} {} {} {}", shs(&(x * y)), shs(&z), shs(&w), shs(&m)) }
                "neg" => format!("{} {}", shs(&(-x)), shs(&(-&x))),
                "sqr" => { let mut m = Scalar::default(); m.sqr_in_place(&x); format!("{} {}", shs(&x.sqr()), shs(&m)) }
                "inv" => format!("{} {}", shs(&x.inv()), shs(&x.inv_var())),
                "condneg" => { let mut z = x; z.cond_neg_assign(subtle::Choice::from(a[3].parse::<u8>().unwrap())); shs(&z) }
                "shr" => { let mut z = x; let r = z.shr_int(n(3)); format!("{} {}", r, shs(&z)) }
                "bits" => format!("{}", x.bits(n(3), n(4))),
                "bitsv" => format!("{}", x.bits_var(n(3), n(4))),
                "cadd" => { let mut z = x; z.cadd_bit(n(3), a[4] == "1"); shs(&z) }
                "load" => { let mut z = Scalar::default(); let o = bool::from(z.set_b32(&a32(a[2]))); let mut b = [0u8; 32]; z.fill_b32(&mut b); format!("{} {} {}", o as u8, shs(&z), hex(&b)) }
                "pred" => format!("{} {} {} {}", x.is_zero() as u8, x.is_one() as u8, x.is_high() as u8, x.is_even() as u8),
                "eq" => format!("{}", (x == y) as u8),
                "int" => { let v: u32 = a[3].parse().unwrap(); let mut z = x; z.set_int(v); format!("{} {}", shs(&Scalar::from_int(v)), shs(&z)) }
                "hex" => format!("{:x}", x),
                "clear" => { let mut z = x; z.clear(); unsafe { raw(&z) } }
                _ => panic!("harness: scalar op"),
            }
        }
        "lift" => { let mut r = Affine::default(); let ok = r.set_xo_var(&fe(a[1]), a[2] == "1"); if ok { sha(&r) } else { "no".into() } }
        "xquad" => { let mut r = Affine::default(); let ok = r.set_xquad(&fe(a[1])); if ok { sha(&r) } else { "no".into() } }
        "clear" => match a[1] {
            "scalar" => { let mut z = sc(a[2]); z.clear(); unsafe { raw(&z) } }
            "seckey" => { let mut z = sk(a[2]); let w = z; z.clear(); format!("{} {} {}", unsafe { raw(&z) }, z.is_zero() as u8, hex(&w.serialize())) }
            "field" => { let mut z = fe(a[2]); z.clear(); let mut y = z; y.normalize(); format!("{} {}", z.is_zero() as u8, hex(&y.b32())) }
            "affine" => { let mut z = aff(a[2]); z.clear(); format!("{} {} {}", shf(&z.x), shf(&z.y), z.infinity as u8) }
            "affinf" => { let mut z = aff(a[2]); z.infinity = true; z.clear(); format!("{} {} {}", shf(&z.x), shf(&z.y), z.infinity as u8) }
            "jacinf" => { let mut z = jac(a[2], a[3]); z.infinity = true; z.clear(); format!("{} {} {} {}", shf(&z.x), shf(&z.y), shf(&z.z), z.infinity as u8) }
            "jacobian" => { let mut z = jac(a[2], a[3]); z.clear(); format!("{} {} {} {}", shf(&z.x), shf(&z.y), shf(&z.z), z.infinity as u8) }
            _ => panic!("harness: clear"),
        },
        "ecmult" => ctxs(a[1], |c, _| { let p = jac(a[2], a[3]); let mut r = Jacobian::default(); c.ecmult(&mut r, &p, &sc(a[4]), &sc(a[5])); shj(&r) }),
        "ecmultc" => ctxs(a[1], |c, _| { let mut r = Jacobian::default(); c.ecmult_const(&mut r, &aff(a[2]), &sc(a[3])); shj(&r) }),
        "gen" => ctxs(a[1], |_, g| { let mut r = Jacobian::default(); g.ecmult_gen(&mut r, &sc(a[2])); shj(&r) }),
        "pre" => ctxs(a[1], |c, _| { let s: usize = a[2].parse().unwrap(); let e: usize = a[3].parse().unwrap();
            c.inspect_raw()[s..e].iter().map(|x| { let p: Affine = x.clone().into(); sha(&p) }).collect::<Vec<_>>().join(" ") }),
        "prec" => ctxs(a[1], |_, g| { let j: usize = a[2].parse().unwrap();
            g.inspect_raw()[j].iter().map(|x| { let p: Affine = x.clone().into(); sha(&p) }).collect::<Vec<_>>().join(" ") }),
        "sk" => { let r = SecretKey::parse(&a32(a[1])); res(r, |k| format!("{} {}", hex(&k.serialize()), k.is_zero() as u8)) }
        "skslice" => res(SecretKey::parse_slice(&unhex(a[1])), |k| hex(&k.serialize())),
        "skscalar" => res(SecretKey::try_from(sc(a[1])), |k| { let s: Scalar = k.into(); shs(&s) }),
        "skdefault" => hex(&SecretKey::default().serialize()),
        "skinv" => hex(&sk(a[1]).inv().serialize()),
        "skeq" => format!("{}", (sk(a[1]) == sk(a[2])) as u8),
        "skhex" => format!("{:x}", sk(a[1])),
        "random" => { let mut r = Scripted(unhex(a[1]), 0); let k = SecretKey::random(&mut r); format!("{} {}", hex(&k.serialize()), r.1) }
        "skadd" => { let mut k = sk(a[1]); let r = k.tweak_add_assign(&sk(a[2])); format!("{} {}", res(r, |_| "".into()), hex(&k.serialize())) }
        "skmul" => { let mut k = sk(a[1]); let mut t = sk(a[2]); if a.len() > 3 { t.clear() } let r = k.tweak_mul_assign(&t); format!("{} {}", res(r, |_| "".into()), hex(&k.serialize())) }
        "skadd0" => { let mut k = sk(a[1]); let mut t = sk(a[1]); t.clear(); let r = k.tweak_add_assign(&t); format!("{} {}", res(r, |_| "".into()), hex(&k.serialize())) }
        "pkfrom" => ctxs(a[1], |_, g| { let k = sk(a[2]); if a[1] == "boxed" { spk(&PublicKey::from_secret_key_with_context(&k, g)) } else { spk(&PublicKey::from_secret_key(&k)) } }),
        "pkparse" => res(PublicKey::parse(&a65(a[1])), |p| format!("{} {}", spk(&p), hex(&p.serialize_compressed()))),
        "pkparsec" => res(PublicKey::parse_compressed(&a33(a[1])), |p| format!("{} {}", spk(&p), hex(&p.serialize_compressed()))),
        "pkslice" => res(PublicKey::parse_slice(&unhex(a[2]), fmtof(a[1])), |p| spk(&p)),
        "pkaffine" => res(PublicKey::try_from(aff(a[1])), |p| { let q: Affine = p.into(); format!("{} {}", spk(&p), sha(&q)) }),
        "pkeq" => format!("{}", (pk(a[1]) == pk(a[2])) as u8),
        "pkadd" => ctxs(a[1], |c, _| { let mut p = pk(a[2]); let mut t = sk(a[3]); if a.len() > 4 { t.clear() } let r = if a[1] == "boxed" { p.tweak_add_assign_with_context(&t, c) } else { p.tweak_add_assign(&t) }; format!("{} {}", res(r, |_| "".into()), spk(&p)) }),
        "pkmul" => ctxs(a[1], |c, _| { let mut p = pk(a[2]); let mut t = sk(a[3]); if a.len() > 4 { t.clear() } let r = if a[1] == "boxed" { p.tweak_mul_assign_with_context(&t, c) } else { p.tweak_mul_assign(&t) }; format!("{} {}", res(r, |_| "".into()), spk(&p)) }),
        "combine" => { let v: Vec<PublicKey> = a[1..].iter().map(|x| pk(x)).collect(); res(PublicKey::combine(&v), |p| spk(&p)) }
        "ecdh" => ctxs(a[1], |c, _| { let mut k = sk(a[3]); if a.len() > 4 { k.clear() }
            let r = if a[1] == "boxed" { SharedSecret::<sha2::Sha256>::new_with_context(&pk(a[2]), &k, c) } else { SharedSecret::<sha2::Sha256>::new(&pk(a[2]), &k) };
            res(r, |s| hex(s.as_ref())) }),
        "ecdh512" => { let r = SharedSecret::<sha2::Sha512>::new(&pk(a[2]), &sk(a[3])); res(r, |s| hex(s.as_ref())) }
        "sigstd" => res(Signature::parse_standard(&a64(a[1])), |s| format!("{} {}", ssig(&s), hex(&s.serialize()))),
        "sigover" => { let s = Signature::parse_overflowing(&a64(a[1])); format!("{} {}", ssig(&s), hex(&s.serialize())) }
        "sigstdslice" => res(Signature::parse_standard_slice(&unhex(a[1])), |s| ssig(&s)),
        "sigoverslice" => res(Signature::parse_overflowing_slice(&unhex(a[1])), |s| ssig(&s)),
        "der" => res(Signature::parse_der(&unhex(a[1])), |s| ssig(&s)),
        "derlax" => res(Signature::parse_der_lax(&unhex(a[1])), |s| ssig(&s)),
        "serder" => { let d = sig(a[1]).serialize_der(); format!("{} {}", hex(d.as_ref()), d.len()) }
        "normalize" => { let mut s = sig(a[1]); s.normalize_s(); ssig(&s) }
        "sigeq" => format!("{}", (sig(a[1]) == sig(a[2])) as u8),
        "msg" => { let m = Message::parse(&a32(a[1])); format!("{} {}", shs(&m.0), hex(&m.serialize())) }
        "msgslice" => res(Message::parse_slice(&unhex(a[1])), |m| shs(&m.0)),
        "recid" => { let v: u8 = a[1].parse().unwrap(); res(RecoveryId::parse(v), |r| { let b: u8 = r.into(); let i: i32 = r.into(); format!("{} {} {}", r.serialize(), b, i) }) }
        "recidrpc" => { let v: u8 = a[1].parse().unwrap(); res(RecoveryId::parse_rpc(v), |r| format!("{}", r.serialize())) }
        "verify" => ctxs(a[1], |c, _| { let m = Message::parse(&a32(a[2])); let s = sig(a[3]); let p = pk(a[4]);
            format!("{}", (if a[1] == "boxed" { verify_with_context(&m, &s, &p, c) } else { verify(&m, &s, &p) }) as u8) }),
        "recover" => ctxs(a[1], |c, _| { let m = Message::parse(&a32(a[2])); let s = sig(a[3]); let r = RecoveryId::parse(a[4].parse().unwrap()).unwrap();
            res(if a[1] == "boxed" { recover_with_context(&m, &s, &r, c) } else { recover(&m, &s, &r) }, |p| spk(&p)) }),
        "sign" => ctxs(a[1], |_, g| { let m = Message::parse(&a32(a[2])); let k = sk(a[3]);
            let (s, r) = if a[1] == "boxed" { sign_with_context(&m, &k, g) } else { sign(&m, &k) };
            format!("{} {}", ssig(&s), r.serialize()) }),
        "signraw" => ctxs(a[1], |_, g| { match g.sign_raw(&sc(a[2]), &sc(a[3]), &sc(a[4])) { Ok((r, s, i)) => format!("ok {}{} {}", shs(&r), shs(&s), i), Err(e) => er(e) } }),
        "serjson" => serde_json::to_string(&pk(a[1])).unwrap(),
        "serbin" => hex(&bincode::serialize(&pk(a[1])).unwrap()),
        "dejson" => { let s = String::from_utf8(unhex(a[1])).unwrap(); match serde_json::from_str::<PublicKey>(&s) { Ok(p) => format!("ok {}", spk(&p)), Err(_) => "err".into() } }
        "debin" => { let b = unhex(a[1]); match bincode::deserialize::<PublicKey>(&b) { Ok(p) => format!("ok {}", spk(&p)), Err(_) => "err".into() } }
        "errs" => [Error::InvalidSignature, Error::InvalidPublicKey, Error::InvalidSecretKey, Error::InvalidRecoveryId, Error::InvalidMessage, Error::InvalidInputLength, Error::TweakOutOfRange, Error::InvalidAffine].iter().map(|e| format!("{:?}", e)).collect::<Vec<_>>().join(" "),
        _ => panic!("harness: unknown operation {}", a[0]),
    }
}

fn main() {
    let _ = words(&[]);
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() { continue; }
        let r = catch_unwind(AssertUnwindSafe(|| exec(&line))).unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            format!("PANIC {}", m.replace('\n', " "))
        });
        let mut o = out.lock();
        writeln!(o, "{}", r).unwrap();
        o.flush().unwrap();
    }
}
