use super::*;
use super::h_curve::{pt, ptv, sc, scv, P, PP};
use crate::{curve::*, entities::*, tools::{bitvec::BitVec, hashing::*, sss::*, Secret}, params::SchemeParams};
use alloc::collections::{BTreeMap, BTreeSet};
use digest::XofReader;

pub fn hash_of<T: Hashable>(x: &T) -> Value {
    let mut r = Hasher::<<P as SchemeParams>::Digest>::new_with_dst(b"verif").chain(x).finalize_to_reader();
    let mut b = [0u8; 32]; r.read(&mut b); json!(to_hex(&b))
}
fn id(v: &Value) -> ShareId<P> { ShareId::new(u64::from_str_radix(s(v), 16).unwrap()) }
fn secs(v: &Value) -> Secret<Scalar<P>> { let x = sc(v); Secret::init_with(|| x) }
fn bits(v: &Value) -> BitVec { serde_json::from_value(v.clone()).expect("harness: bitvec") }
fn bitsv(b: &BitVec) -> Value { json!(b.bits().iter().map(|x| if *x { '1' } else { '0' }).collect::<String>()) }
pub type Pid = u32;

pub fn run(f: &str, v: &Value) -> R {
    Ok(match f {
        "de_bits" => bitsv(&serde_json::from_value::<BitVec>(v["json"].clone()).map_err(|e| e.to_string())?),
        "reser_bits" => serde_json::to_value(serde_json::from_value::<BitVec>(v["json"].clone()).map_err(|e| e.to_string())?).unwrap(),
        "xof_bits" => { let mut r = Xof { bytes: hex_to_bytes(s(&v["bytes"])), pos: 0 }; let b = BitVec::from_xof_reader(&mut r, u(&v["n"]) as usize); json!({"bits": bitsv(&b), "read": r.pos, "json": serde_json::to_value(&b).unwrap()}) }
        "random_bits" => { let mut r = rng(v); bitsv(&BitVec::random(&mut r, u(&v["n"]) as usize)) }
        "xor_bits" => { let mut a = bits(&v["a"]); a ^= &bits(&v["b"]); bitsv(&a) }
        "hash_bytes" => {
            // chain of byte strings
            let mut h = Hasher::<<P as SchemeParams>::Digest>::new_with_dst(&hex_to_bytes(s(&v["dst"])));
            for x in v["items"].as_array().unwrap() { h = h.chain_bytes(&hex_to_bytes(s(x))); }
            let mut r = h.finalize_to_reader(); let mut b = [0u8; 32]; r.read(&mut b); json!(to_hex(&b))
        }
        "hash_final" => {
            let mut h = Hasher::<<P as SchemeParams>::Digest>::new_with_dst(&hex_to_bytes(s(&v["dst"])));
            for x in v["items"].as_array().unwrap() { h = h.chain_bytes(&hex_to_bytes(s(x))); }
            serde_json::to_value(h.finalize(u(&v["bits"]) as usize)).unwrap()
        }
        "hash_vals" => {
            let mut h = Hasher::<<P as SchemeParams>::Digest>::new_with_dst(b"verif");
            for x in v["items"].as_array().unwrap() {
                h = match s(&x["t"]) {
                    "scalar" => h.chain(&sc(&x["v"])), "point" => h.chain(&pt(&x["v"])),
                    "scalars" => h.chain(&x["v"].as_array().unwrap().iter().map(sc).collect::<Vec<_>>()),
                    "bytes" => h.chain(&hex_to_bytes(s(&x["v"]))),
                    "u64" => h.chain(&u(&x["v"])),
                    t => return Err(format!("type {t}")),
                };
            }
            let mut r = h.finalize_to_reader(); let mut b = [0u8; 32]; r.read(&mut b); json!(to_hex(&b))
        }
        // Shamir
        "eval_points" => Value::Array(shamir_evaluation_points::<P>(u(&v["n"]) as usize).iter().map(|x| serde_json::to_value(x).unwrap()).collect()),
        "split" => {
            let mut r = rng(v);
            let ids: Vec<_> = v["ids"].as_array().unwrap().iter().map(id).collect();
            let m = shamir_split::<P>(&mut r, secs(&v["a"]), u(&v["t"]) as usize, &ids);
            Value::Array(m.iter().map(|(k, x)| json!([serde_json::to_value(k).unwrap(), scv(x.expose_secret())])).collect())
        }
        "join" => scv(shamir_join_scalars::<P>(v["pairs"].as_array().unwrap().iter().map(|p| (id(&p[0]), secs(&p[1]))).collect()).expose_secret()),
        "join_points" => ptv(&shamir_join_points::<P>(&v["pairs"].as_array().unwrap().iter().map(|p| (id(&p[0]), pt(&p[1]))).collect())),
        "poly" => {
            let mut r = rng(v);
            let p = Polynomial::<P>::random(&mut r, secs(&v["a"]), u(&v["t"]) as usize);
            let pp = p.public();
            json!({"coeff0": ptv(pp.coeff0().unwrap()), "public": serde_json::to_value(&pp).unwrap(), "secret": Value::Array(v["xs"].as_array().unwrap().iter().map(|x| scv(p.evaluate(&id(x)).expose_secret())).collect())})
        }
        "pub_eval" => {
            let p: PublicPolynomial<P> = serde_json::from_value(v["public"].clone()).map_err(|e| e.to_string())?;
            ptv(&p.evaluate(&id(&v["x"])))
        }
        "coeff" => { let ids: Vec<_> = v["ids"].as_array().unwrap().iter().map(id).collect(); scv(&interpolation_coeff::<P>(ids.iter(), &id(&v["x"]))) }
        _ => return super::h_tools::entities(f, v),
    })
}

// ------------------------------------------------------------------ key shares
fn ks_json<I: serde::Serialize>(x: &I) -> Value { serde_json::to_value(x).unwrap() }
pub fn entities(f: &str, v: &Value) -> R {
    let vkp = |k: &ecdsa::VerifyingKey<<P as SchemeParams>::Curve>| ptv(&Point::<P>::from_verifying_key(k));
    let parties = |x: &Value| -> BTreeSet<Pid> { x.as_array().unwrap().iter().map(|i| u(i) as u32).collect() };
    Ok(match f {
        "ks_new" => {
            let mut r = rng(v);
            let sk = v.get("sk").filter(|x| !x.is_null()).map(|x| {
                let b: elliptic_curve::FieldBytes<<P as SchemeParams>::Curve> = sc(x).to_be_bytes();
                ecdsa::SigningKey::<<P as SchemeParams>::Curve>::from_bytes(&b).expect("harness: sk")
            });
            let m = KeyShare::<P, Pid>::new_centralized(&mut r, &parties(&v["ids"]), sk.as_ref());
            let mut o = Vec::new();
            for (k, x) in m { o.push(json!({"id": k, "share": ks_json(&x), "vkey": vkp(&x.verifying_key())})); }
            Value::Array(o)
        }
        "ks_vkey" => { let x: KeyShare<P, Pid> = serde_json::from_value(v["share"].clone()).map_err(|e| e.to_string())?; vkp(&x.verifying_key()) }
        "ks_update" => {
            let x: KeyShare<P, Pid> = serde_json::from_value(v["share"].clone()).map_err(|e| e.to_string())?;
            let c: KeyShareChange<P, Pid> = serde_json::from_value(v["change"].clone()).map_err(|e| e.to_string())?;
            ks_json(&x.update(c).map_err(|e| e.to_string())?)
        }
        "tks_new" => {
            let mut r = rng(v);
            let sk = v.get("sk").filter(|x| !x.is_null()).map(|x| {
                let b: elliptic_curve::FieldBytes<<P as SchemeParams>::Curve> = sc(x).to_be_bytes();
                ecdsa::SigningKey::<<P as SchemeParams>::Curve>::from_bytes(&b).expect("harness: sk")
            });
            let m = ThresholdKeyShare::<P, Pid>::new_centralized(&mut r, &parties(&v["ids"]), u(&v["t"]) as usize, sk.as_ref()).map_err(|e| format!("{e:?}"))?;
            let mut o = Vec::new();
            for (k, x) in m { o.push(json!({"id": k, "share": ks_json(&x), "vkey": vkp(&x.verifying_key().map_err(|e| format!("{e:?}"))?)})); }
            Value::Array(o)
        }
        "tks_to_ks" => {
            let x: ThresholdKeyShare<P, Pid> = serde_json::from_value(v["share"].clone()).map_err(|e| e.to_string())?;
            let k = x.to_key_share(&parties(&v["ids"])).map_err(|e| format!("{e:?}"))?;
            json!({"share": ks_json(&k), "vkey": vkp(&k.verifying_key())})
        }
        "tks_from_ks" => { let x: KeyShare<P, Pid> = serde_json::from_value(v["share"].clone()).map_err(|e| e.to_string())?; ks_json(&ThresholdKeyShare::from_key_share(&x)) }
        "tks_vkey" => { let x: ThresholdKeyShare<P, Pid> = serde_json::from_value(v["share"].clone()).map_err(|e| e.to_string())?; vkp(&x.verifying_key().map_err(|e| format!("{e:?}"))?) }
        "tks_bip32" => {
            let x: ThresholdKeyShare<P, Pid> = serde_json::from_value(v["share"].clone()).map_err(|e| e.to_string())?;
            let path: bip32::DerivationPath = s(&v["path"]).parse().map_err(|e| format!("harness: {e:?}"))?;
            let k = x.derive_bip32(&path).map_err(|e| format!("{e:?}"))?;
            use crate::DeriveChildKey;
            let top = x.derive_verifying_key_bip32(&path).map_err(|e| format!("{e:?}"))?;
            let via = x.verifying_key().map_err(|e| format!("{e:?}"))?.derive_verifying_key_bip32(&path).map_err(|e| format!("{e:?}"))?;
            json!({"share": ks_json(&k), "vkey": vkp(&k.verifying_key().map_err(|e| format!("{e:?}"))?), "top": vkp(&top), "via": vkp(&via)})
        }
        "aux_new" => {
            let mut r = rng(v);
            let m = AuxInfo::<P, Pid>::new_centralized(&mut r, &parties(&v["ids"]));
            Value::Array(m.into_iter().map(|(k, x)| json!({"id": k, "aux": ks_json(&x)})).collect())
        }
        "aux_subset" => {
            let x: AuxInfo<P, Pid> = serde_json::from_value(v["aux"].clone()).map_err(|e| e.to_string())?;
            ks_json(&x.subset(&parties(&v["ids"])).map_err(|e| format!("{e:?}"))?)
        }
        "sid" => ks_json(&Sid::new::<P, Pid>(&hex_to_bytes(s(&v["rnd"])), &parties(&v["ids"]))),
        _ => return Err(format!("unknown op {f}")),
    })
}
