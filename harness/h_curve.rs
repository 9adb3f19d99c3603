use super::*;
use crate::{curve::{secret_split, Point, RecoverableSignature, Scalar}, dev::TestParams, params::*, params::SchemeParams, tools::Secret, uint::*};
use crypto_bigint::Uint;
use elliptic_curve::sec1::ToEncodedPoint;

pub type P = TestParams;
pub type PP = <P as SchemeParams>::Paillier;
pub fn sc(v: &Value) -> Scalar<P> {
    let h = s(v); let n = Scalar::<P>::repr_len() * 2;
    Scalar::try_from_be_bytes(&hex_to_bytes(&format!("{}{}", "0".repeat(n - h.len()), h))).expect("harness: invalid scalar")
}
pub fn scv(x: &Scalar<P>) -> Value { json!(to_hex(&x.to_be_bytes())) }
fn secs(v: &Value) -> Secret<Scalar<P>> { let x = sc(v); Secret::init_with(|| x) }
/// a point is given as the hex of its scalar multiple of the generator or {"c": hex of the compressed encoding}
pub fn pt(v: &Value) -> Point<P> {
    if let Some(c) = v.get("c") { return Point::try_from_compressed_bytes(&hex_to_bytes(s(c))).expect("harness: invalid point"); }
    Point::generator() * sc(v)
}
pub fn ptv(p: &Point<P>) -> Value { let a: elliptic_curve::AffinePoint<<P as SchemeParams>::Curve> = p.to_backend().into(); json!({"c": to_hex(a.to_encoded_point(true).as_bytes())}) }
fn ser<T: serde::Serialize>(x: &T) -> R { serde_json::to_value(x).map_err(|e| e.to_string()) }
fn de<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> { serde_json::from_value(v["json"].clone()).map_err(|e| e.to_string()) }

pub fn run(f: &str, v: &Value) -> R {
    Ok(match f {
        "params" => json!({"q": to_hex(elliptic_curve::bigint::Encoding::to_be_bytes(&<<P as SchemeParams>::Curve as elliptic_curve::Curve>::ORDER).as_ref()),
            "repr": Scalar::<P>::repr_len(), "SECURITY_BITS": P::SECURITY_BITS, "SECURITY_PARAMETER": P::SECURITY_PARAMETER,
            "L": P::L_BOUND, "LP": P::LP_BOUND, "EPS": P::EPS_BOUND, "PRIME_BITS": <PP as crate::paillier::PaillierParams>::PRIME_BITS}),
        "add" => scv(&(sc(&v["a"]) + sc(&v["b"]))),
        "sub" => scv(&(sc(&v["a"]) - sc(&v["b"]))),
        "mul" => scv(&(sc(&v["a"]) * sc(&v["b"]))),
        "neg" => scv(&-sc(&v["a"])),
        "add_assign" => { let mut a = sc(&v["a"]); a += &sc(&v["b"]); scv(&a) }
        "sub_assign" => { let mut a = sc(&v["a"]); a -= &sc(&v["b"]); scv(&a) }
        "mul_assign" => { let mut a = sc(&v["a"]); a *= &sc(&v["b"]); scv(&a) }
        "sec_neg" => scv((-&secs(&v["a"])).expose_secret()),
        "sec_add" => scv((&secs(&v["a"]) + &secs(&v["b"])).expose_secret()),
        "sec_sub" => scv((secs(&v["a"]) - secs(&v["b"])).expose_secret()),
        "sec_mul" => scv((&secs(&v["a"]) * &secs(&v["b"])).expose_secret()),
        "invert" => match Option::<Scalar<P>>::from(sc(&v["a"]).invert()) { Some(x) => scv(&x), None => Value::Null },
        "to_bytes" => json!(to_hex(&sc(&v["a"]).to_be_bytes())),
        "from_bytes" => scv(&Scalar::<P>::try_from_be_bytes(&hex_to_bytes(s(&v["bytes"])))?),
        "ser_scalar" => ser(&sc(&v["a"]))?,
        "de_scalar" => scv(&de::<Scalar<P>>(v)?),
        "ser_point" => ser(&pt(&v["a"]))?,
        "de_point" => ptv(&de::<Point<P>>(v)?),
        "reser_point" => ser(&de::<Point<P>>(v)?)?,
        "hash_point" => super::h_tools::hash_of(&de::<Point<P>>(v)?),
        "point" => ptv(&pt(&v["a"])),
        "identity" => ptv(&Point::<P>::identity()),
        "mul_gen" => ptv(&sc(&v["a"]).mul_by_generator()),
        "sec_mul_gen" => ptv(&secs(&v["a"]).mul_by_generator()),
        "pt_add" => ptv(&(pt(&v["a"]) + pt(&v["b"]))),
        "pt_mul" => ptv(&(pt(&v["a"]) * sc(&v["b"]))),
        "pt_mul_ref" => ptv(&(&pt(&v["a"]) * &sc(&v["b"]))),
        "pt_mul_sec" => ptv(&(pt(&v["a"]) * &secs(&v["b"]))),
        "sum" => scv(&v["xs"].as_array().unwrap().iter().map(sc).sum::<Scalar<P>>()),
        "product" => scv(&v["xs"].as_array().unwrap().iter().map(sc).product::<Scalar<P>>()),
        "pt_sum" => ptv(&v["xs"].as_array().unwrap().iter().map(pt).sum::<Point<P>>()),
        "sec_sum" => scv(v["xs"].as_array().unwrap().iter().map(secs).sum::<Secret<Scalar<P>>>().expose_secret()),
        "split" => { let mut r = rng(v); Value::Array(secret_split::<P>(&mut r, secs(&v["a"]), u(&v["n"]) as usize).iter().map(|x| scv(x.expose_secret())).collect()) }
        "random" => { let mut r = rng(v); scv(&Scalar::<P>::random(&mut r)) }
        "random_nonzero" => { let mut r = rng(v); scv(&Scalar::<P>::random_nonzero(&mut r)) }
        "xof" => { let mut r = Xof { bytes: hex_to_bytes(s(&v["bytes"])), pos: 0 }; let x = Scalar::<P>::from_xof_reader(&mut r); json!({"x": scv(&x), "read": r.pos}) }
        "reduced" => scv(&Scalar::<P>::from_reduced_bytes(hex_to_bytes(s(&v["bytes"])))),
        "x_coord" => scv(&pt(&v["a"]).x_coordinate()),
        "vkey" => match pt(&v["a"]).to_verifying_key() { Some(k) => ptv(&Point::<P>::from_verifying_key(&k)), None => Value::Null },
        // conversions
        "public_signed_from_scalar" => h_uint::psv(&public_signed_from_scalar::<P>(&sc(&v["a"]))),
        "secret_signed_from_scalar" => h_uint::ssv(&secret_signed_from_scalar::<P>(&secs(&v["a"]))),
        "scalar_from_signed" => scv(&scalar_from_signed::<P>(&PublicSigned::new_from_unsigned(uint::<4>(&v["a"]["x"]), u(&v["a"]["b"]) as u32).unwrap())),
        "scalar_from_wide_signed" => scv(&scalar_from_wide_signed::<P>(&PublicSigned::new_from_unsigned(uint::<8>(&v["a"]["x"]), u(&v["a"]["b"]) as u32).unwrap())),
        "secret_scalar_from_signed" => { let x = uint::<4>(&v["a"]["x"]); scv(secret_scalar_from_signed::<P>(&Option::<SecretSigned<Uint<4>>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| x), u(&v["a"]["b"]) as u32)).unwrap()).expose_secret()) }
        "secret_scalar_from_wide_signed" => { let x = uint::<8>(&v["a"]["x"]); scv(secret_scalar_from_wide_signed::<P>(&Option::<SecretSigned<Uint<8>>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| x), u(&v["a"]["b"]) as u32)).unwrap()).expose_secret()) }
        // signatures
        "recoverable" => {
            let vk = pt(&v["vkey"]);
            match RecoverableSignature::<P>::from_scalars(sc(&v["r"]), sc(&v["s"]), vk, sc(&v["m"])) {
                None => Value::Null,
                Some(x) => {
                    let (sig, id) = x.to_backend();
                    let msg = sc(&v["m"]).to_be_bytes();
                    use ecdsa::signature::hazmat::PrehashVerifier;
                    let vkey = vk.to_verifying_key().unwrap();
                    let ok = vkey.verify_prehash(&msg, &sig).is_ok();
                    let rec = ecdsa::VerifyingKey::recover_from_prehash(&msg, &sig, id).map(|k| k == vkey).unwrap_or(false);
                    json!({"r": to_hex(&elliptic_curve::PrimeField::to_repr(sig.r().as_ref())), "s": to_hex(&elliptic_curve::PrimeField::to_repr(sig.s().as_ref())), "verifies": ok, "recovers": rec, "high": sig.normalize_s().is_some()})
                }
            }
        }
        _ => return Err(format!("unknown op {f}")),
    })
}
