use super::*;
use super::h_curve::PP;
use super::h_uint::{psv, ssv};
use crate::{paillier::*, tools::Secret, uint::*};
use alloc::collections::BTreeMap;
use core::cell::RefCell;
use crypto_bigint::{modular::Retrieve, subtle::CtOption, Uint};

pub type U4 = Uint<4>;
pub type U8w = Uint<8>;

// ------------------------------------------------------------------ values through their own serialized form
// Private wire structures are filled by replacing the leaves of the serialized form of some valid value, in order,
// so that nothing here depends on the names or the nesting of their fields.
pub fn leaves<'a>(v: &'a mut Value, out: &mut Vec<&'a mut Value>) {
    match v {
        Value::Array(a) => for x in a.iter_mut() { leaves(x, out) },
        Value::Object(o) => for (_, x) in o.iter_mut() { leaves(x, out) },
        Value::Null => {}
        x => out.push(x),
    }
}
pub fn refill<T: serde::Serialize + serde::de::DeserializeOwned>(template: &T, with: &[Value]) -> Result<T, String> {
    let mut j = serde_json::to_value(template).map_err(|e| e.to_string())?;
    { let mut l = Vec::new(); leaves(&mut j, &mut l); assert!(l.len() == with.len(), "harness: leaves"); for (a, b) in l.into_iter().zip(with) { *a = b.clone(); } }
    serde_json::from_value(j).map_err(|e| e.to_string())
}
pub fn leafhex<T: serde::Serialize>(x: &T) -> Vec<Value> {
    let mut j = serde_json::to_value(x).unwrap();
    let mut l = Vec::new(); leaves(&mut j, &mut l); l.into_iter().map(|x| x.clone()).collect()
}
/// big-endian hex of `n` limbs in the form used by the serialized `PublicUint`
pub fn pu<const L: usize>(v: &Value) -> Value { serde_json::to_value(PublicUint::from(uint::<L>(v))).unwrap() }

std::thread_local! {
    static KEYS: RefCell<BTreeMap<String, SecretKeyPaillier<PP>>> = RefCell::new(BTreeMap::new());
    static RPS: RefCell<BTreeMap<u64, RPSecret<PP>>> = RefCell::new(BTreeMap::new());
}
pub fn sk(v: &Value) -> SecretKeyPaillier<PP> {
    let name = v.to_string();
    KEYS.with(|k| k.borrow_mut().entry(name).or_insert_with(|| {
        let t = SecretKeyPaillierWire::<PP>::random(&mut rng(&json!({"seed": 1})));
        let half = |x: &Value| { let h = uint::<2>(x); serde_json::to_value(Secret::init_with(|| h)).unwrap() };
        refill(&t, &[half(&v["p"]), half(&v["q"])]).expect("harness: key").into_precomputed()
    }).clone())
}
/// a public key is {"p","q"} or {"n"}
pub fn pk(v: &Value) -> PublicKeyPaillier<PP> {
    if v.get("n").is_some() {
        let t = SecretKeyPaillierWire::<PP>::random(&mut rng(&json!({"seed": 1}))).public_key();
        return refill(&t, &[pu::<4>(&v["n"])]).expect("harness: pk").into_precomputed();
    }
    sk(v).public_key().clone()
}
pub fn rps(seed: u64) -> RPSecret<PP> { RPS.with(|k| k.borrow_mut().entry(seed).or_insert_with(|| RPSecret::random(&mut rng(&json!({"seed": seed})))).clone()) }
/// ring-Pedersen parameters: {"n","t","s"}
pub fn setup(v: &Value) -> RPParams<PP> {
    let t = RPParams::random_with_secret(&mut rng(&json!({"seed": 2})), &rps(1)).to_wire();
    // the leaves of the serialized form, in key order
    let mut j = serde_json::to_value(&t).unwrap();
    let o = j.as_object_mut().unwrap();
    for (k, x) in o.iter_mut() {
        let w = if k.contains("randomizer") { "t" } else if k.contains("value") { "s" } else { "n" };
        let mut l = Vec::new(); leaves(x, &mut l); *l[0] = pu::<4>(&v[w]);
    }
    serde_json::from_value::<RPParamsWire<PP>>(j).expect("harness: setup").to_precomputed()
}
pub fn setup_v(s: &RPParams<PP>) -> Value {
    json!({"n": hx(s.modulus()), "t": hx(&s.base_randomizer().retrieve()), "s": hx(&s.base_value().retrieve())})
}
pub fn ct(pk: &PublicKeyPaillier<PP>, v: &Value) -> Ciphertext<PP> {
    let t = Ciphertext::new_with_randomizer(pk, &SecretSigned::zero(), &Randomizer::random(&mut rng(&json!({"seed": 1})), pk)).to_wire();
    refill(&t, &[pu::<8>(v)]).expect("harness: ciphertext").to_precomputed(pk)
}
pub fn ctv(c: &Ciphertext<PP>) -> Value { leafhex(&c.to_wire()).remove(0) }
pub fn rho(pk: &PublicKeyPaillier<PP>, v: &Value) -> Randomizer<PP> { Randomizer::random(&mut rng(v), pk) }
pub fn rhov(r: &Randomizer<PP>) -> Value { leafhex(&r.to_masked(r, &PublicSigned::zero())).remove(0) }
pub fn ss<const L: usize>(v: &Value) -> SecretSigned<Uint<L>> {
    let x = uint::<L>(&v["x"]);
    Option::from(SecretSigned::new_from_unsigned(Secret::init_with(|| x), u(&v["b"]) as u32)).expect("harness: invalid signed")
}
pub fn ps<const L: usize>(v: &Value) -> PublicSigned<Uint<L>> {
    PublicSigned::new_from_unsigned(uint::<L>(&v["x"]), u(&v["b"]) as u32).expect("harness: invalid signed")
}
pub fn su<const L: usize>(v: &Value) -> SecretUnsigned<Uint<L>> {
    let x = uint::<L>(&v["x"]);
    Option::<SecretUnsigned<Uint<L>>>::from(SecretUnsigned::new(Secret::init_with(|| x), u(&v["b"]) as u32)).expect("harness: invalid unsigned")
}

pub fn run(f: &str, v: &Value) -> R {
    Ok(match f {
        // keys
        "key_info" => {
            let k = sk(&v["k"]); let p = k.public_key();
            json!({"n": hx(p.modulus()), "n_wire": hx(p.as_wire().modulus()), "inv_totient": hx(&k.inv_totient().expose_secret().retrieve()),
                "inv_modulus": hx(k.inv_modulus().expose_secret()), "inv_modulus_bound": k.inv_modulus().bound(), "p": ssv(&k.p_signed()), "q": ssv(&k.q_signed()),
                "totient_wide": hx(k.totient_wide_unsigned().expose_secret()), "totient_bound": k.totient_wide_unsigned().bound(), "n_signed": psv(&p.modulus_signed()),
                "n_nz": hx(&p.modulus_nonzero().get()), "n_wide": hx(&p.modulus_wide_nonzero().get()), "n_mod_n2": hx(&p.modulus_mod_modulus_squared().retrieve())})
        }
        "key_random" => {
            let w = SecretKeyPaillierWire::<PP>::random(&mut rng(v));
            let n = hx(w.public_key().modulus());
            let k = w.clone().into_precomputed();
            let same = leafhex(&k.clone().into_wire()) == leafhex(&w);
            json!({"p": ssv(&k.p_signed())["x"], "q": ssv(&k.q_signed())["x"], "n": n, "wire_same": same})
        }
        "key_roundtrip" => { let w = sk(&v["k"]).into_wire(); let j = serde_json::to_value(&w).unwrap(); let w2: SecretKeyPaillierWire<PP> = serde_json::from_value(j.clone()).map_err(|e| e.to_string())?;
            json!({"same": serde_json::to_value(&w2).unwrap() == j, "n": hx(w2.into_precomputed().public_key().modulus())}) }
        "pk_eq" => json!(pk(&v["k1"]) == pk(&v["k2"])),
        "pk_roundtrip" => { let w = pk(&v["k"]).into_wire(); let j = serde_json::to_value(&w).unwrap(); let w2: PublicKeyPaillierWire<PP> = serde_json::from_value(j).map_err(|e| e.to_string())?; json!({"same": w == w2, "n": hx(w2.modulus())}) }
        "rns_split" => { let (a, b) = sk(&v["k"]).rns_split(&uint::<4>(&v["x"])); json!([hx(&a.retrieve()), hx(&b.retrieve())]) }
        "rns_join" => { let k = sk(&v["k"]); json!(hx(&k.rns_join(&k.rns_split(&uint::<4>(&v["x"]))))) }
        "rns_sqrt" => { let k = sk(&v["k"]); match k.rns_sqrt(&k.rns_split(&uint::<4>(&v["x"]))) { Some(r) => json!(hx(&k.rns_join(&r))), None => Value::Null } }
        "nonsquare" => { let k = sk(&v["k"]); let mut r = rng(v); Value::Array((0..v["cnt"].as_u64().unwrap_or(1)).map(|_| json!(hx(&k.random_nonsquare_residue(&mut r)))).collect()) }
        "invertible" => { let k = pk(&v["k"]); let mut r = rng(v); Value::Array((0..v["cnt"].as_u64().unwrap_or(1)).map(|_| json!(hx(&k.random_invertible_residue(&mut r)))).collect()) }
        "invertible_xof" => { let mut r = Xof { bytes: hex_to_bytes(s(&v["bytes"])), pos: 0 }; let x = pk(&v["k"]).invertible_residue_from_xof_reader(&mut r); json!({"x": hx(&x), "read": r.pos}) }
        // encryption
        "rho" => json!(rhov(&rho(&pk(&v["k"]), &v["rho"]))),
        "enc" => {
            let p = pk(&v["k"]); let r = rho(&p, &v["rho"]);
            let c = match s(&v["kind"]) {
                "secret" => Ciphertext::new_with_randomizer(&p, &ss::<4>(&v["m"]), &r),
                "secret_wide" => Ciphertext::new_wide_with_randomizer(&p, &ss::<8>(&v["m"]), &r),
                "public" | "public_wide" => {
                    let m = r.to_masked(&rho(&p, &v["coeff"]), &ps::<4>(&v["e"]));
                    if s(&v["kind"]) == "public" { Ciphertext::new_public_with_randomizer(&p, &ps::<4>(&v["m"]), &m) } else { Ciphertext::new_public_wide_with_randomizer(&p, &ps::<8>(&v["m"]), &m) }
                }
                _ => return Err("kind".into()),
            };
            ctv(&c)
        }
        "masked" => { let p = pk(&v["k"]); let m = rho(&p, &v["rho"]).to_masked(&rho(&p, &v["coeff"]), &ps::<4>(&v["e"])); leafhex(&m).remove(0) }
        "dec" => { let k = sk(&v["k"]); ssv(&ct(k.public_key(), &v["c"]).decrypt(&k)) }
        "derive" => { let k = sk(&v["k"]); rhov(&ct(k.public_key(), &v["c"]).derive_randomizer(&k)) }
        "wire" => ctv(&ct(&pk(&v["k"]), &v["c"])),
        "hom" => {
            let p = pk(&v["k"]); let a = ct(&p, &v["a"]);
            let b = || ct(&p, &v["b"]);
            let r = match s(&v["kind"]) {
                "add" => a + b(), "add_ref" => &a + &b(), "add_mixed" => a + &b(), "sub_ref" => a - &b(),
                "mul_s" => a * &ss::<4>(&v["x"]), "mul_s_ref" => &a * &ss::<4>(&v["x"]), "mul_p" => a * &ps::<4>(&v["x"]), "mul_p_ref" => &a * &ps::<4>(&v["x"]),
                "mul_sw" => &a * &ss::<8>(&v["x"]), "mul_pw" => &a * &ps::<8>(&v["x"]),
                _ => return Err("kind".into()),
            };
            assert!(r.public_key() == &p, "harness: key of the result");
            ctv(&r)
        }
        "hom_mixed_keys" => { let a = ct(&pk(&v["k"]), &v["a"]); let b = ct(&pk(&v["k2"]), &v["b"]); ctv(&(&a + &b)) }
        // ring-Pedersen
        "rp_new" => { let sec = rps(u(&v["seed"])); let mut r = rng(v); let p = RPParams::random_with_secret(&mut r, &sec);
            let mut j = setup_v(&p); j["lambda"] = json!(hx(sec.lambda().expose_secret())); j["totient"] = json!(hx(&sec.totient_nonzero().expose_secret().get())); j["lbound"] = json!(sec.lambda().bound());
            j["modulus"] = json!(hx(&sec.modulus())); j["a"] = json!(hx(sec.random_residue_mod_totient(&mut r).expose_secret())); j }
        "rp_roundtrip" => { let p = setup(&v["setup"]); let j = serde_json::to_value(&p.to_wire()).unwrap(); let w: RPParamsWire<PP> = serde_json::from_value(j).map_err(|e| e.to_string())?; setup_v(&w.to_precomputed()) }
        "rp_commit" => {
            let p = setup(&v["setup"]);
            let c = match s(&v["kind"]) {
                "ss_ssw" => p.commit(&ss::<4>(&v["a"]), &ss::<8>(&v["b"])), "ps_psw" => p.commit(&ps::<4>(&v["a"]), &ps::<8>(&v["b"])),
                "ss_ss" => p.commit(&ss::<4>(&v["a"]), &ss::<4>(&v["b"])), "ssw_ssw" => p.commit(&ss::<8>(&v["a"]), &ss::<8>(&v["b"])), "psw_psw" => p.commit(&ps::<8>(&v["a"]), &ps::<8>(&v["b"])),
                "su_su" => p.commit(&su::<4>(&v["a"]), &su::<4>(&v["b"])),
                "zero_value" => p.commit_zero_value(&ss::<8>(&v["b"])), "zero_randomizer" => p.commit_zero_randomizer(&ss::<4>(&v["a"])),
                _ => return Err("kind".into()),
            };
            let c = match v["pow"].as_object() { None => c, Some(_) => c.pow(&ps::<4>(&v["pow"])) };
            let w = c.to_wire();
            let c2 = w.to_precomputed(&p);
            let c3 = if v["square"].as_bool() == Some(true) { &c2 * &c } else { c2 };
            leafhex(&c3.to_wire()).remove(0)
        }
        _ => return Err(format!("unknown op {f}")),
    })
}
