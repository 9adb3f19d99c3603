use super::*;
use super::h_curve::{pt, sc, P, PP};
use super::h_paillier::*;
use crate::{curve::*, paillier::*, tools::Secret, zk::*};

fn secs(v: &Value) -> Secret<Scalar<P>> { let x = sc(v); Secret::init_with(|| x) }
fn de<T: serde::de::DeserializeOwned>(v: &Value) -> Result<T, String> { serde_json::from_value(v.clone()).map_err(|e| e.to_string()) }
fn ser<T: serde::Serialize>(x: &T) -> R { serde_json::to_value(x).map_err(|e| e.to_string()) }

/// {"proof": kind, "verify": proof or absent, "w": witness, "pub": statement, "setup", "aux", "seed"}
pub fn run(f: &str, v: &Value) -> R {
    let prove = match f { "prove" => true, "verify" => false, _ => return Err(format!("unknown op {f}")) };
    let (w, p, aux) = (&v["w"], &v["pub"], &hex_to_bytes(s(&v["aux"])));
    let mut r = rng(v);
    macro_rules! done { ($t:ty, $new:expr, |$x:ident| $ver:expr) => {{ if prove { ser(&$new) } else { let $x: $t = de(&v["json"])?; Ok(json!($ver)) } }} }
    match s(&v["proof"]) {
        "enc_elg" => {
            let pk0 = pk(&p["k0"]); let st = setup(&v["setup"]);
            let (c, a, b, x) = (ct(&pk0, &p["c"]), pt(&p["a"]), pt(&p["b"]), pt(&p["x"]));
            let public = EncElgPublicInputs { pk0: &pk0, cap_c: &c, cap_a: &a, cap_b: &b, cap_x: &x };
            done!(EncElgProof<P>, EncElgProof::new(&mut r, EncElgSecretInputs { x: &ss::<4>(&w["x"]), rho: &rho(&pk0, &w["rho"]), b: &secs(&w["b"]) }, public, &st, aux),
                |proof| proof.verify(public, &st, aux))
        }
        "aff_g" => {
            let (pk0, pk1) = (pk(&p["k0"]), pk(&p["k1"])); let st = setup(&v["setup"]);
            let (c, d, y, x) = (ct(&pk0, &p["c"]), ct(&pk0, &p["d"]), ct(&pk1, &p["y"]), pt(&p["x"]));
            let public = AffGPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &c, cap_d: &d, cap_y: &y, cap_x: &x };
            done!(AffGProof<P>, AffGProof::new(&mut r, AffGSecretInputs { x: &ss::<4>(&w["x"]), y: &ss::<4>(&w["y"]), rho: &rho(&pk0, &w["rho"]), rho_y: &rho(&pk1, &w["rho_y"]) }, public, &st, aux),
                |proof| proof.verify(public, &st, aux))
        }
        "aff_g_star" => {
            let (pk0, pk1) = (pk(&p["k0"]), pk(&p["k1"]));
            let (c, d, y, x) = (ct(&pk0, &p["c"]), ct(&pk0, &p["d"]), ct(&pk1, &p["y"]), pt(&p["x"]));
            let public = AffGStarPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &c, cap_d: &d, cap_y: &y, cap_x: &x };
            done!(AffGStarProof<P>, AffGStarProof::new(&mut r, AffGStarSecretInputs { x: &ss::<4>(&w["x"]), y: &ss::<4>(&w["y"]), rho: &rho(&pk0, &w["rho"]), mu: &rho(&pk1, &w["rho_y"]) }, public, aux),
                |proof| proof.verify(public, aux))
        }
        "dec" => {
            let pk0 = pk(&p["k0"]); let st = setup(&v["setup"]);
            let (k, x, d, sp, g) = (ct(&pk0, &p["k"]), pt(&p["x"]), ct(&pk0, &p["d"]), pt(&p["s"]), pt(&p["g"]));
            let public = DecPublicInputs { pk0: &pk0, cap_k: &k, cap_x: &x, cap_d: &d, cap_s: &sp, cap_g: &g, num_parties: u(&p["n"]) as usize };
            done!(DecProof<P>, DecProof::new(&mut r, DecSecretInputs { x: &ss::<4>(&w["x"]), y: &ss::<4>(&w["y"]), rho: &rho(&pk0, &w["rho"]) }, public, &st, aux),
                |proof| proof.verify(public, &st, aux))
        }
        "elog" => {
            let (l, m, x, y, h) = (pt(&p["l"]), pt(&p["m"]), pt(&p["x"]), pt(&p["y"]), pt(&p["h"]));
            let public = ElogPublicInputs { cap_l: &l, cap_m: &m, cap_x: &x, cap_y: &y, h: &h };
            done!(ElogProof<P>, ElogProof::new(&mut r, ElogSecretInputs { y: &secs(&w["y"]), lambda: &secs(&w["lambda"]) }, public, aux), |proof| proof.verify(public, aux))
        }
        "fac" => {
            let st = setup(&v["setup"]);
            done!(FacProof<P>, FacProof::<P>::new(&mut r, &sk(&w["k"]), &st, aux), |proof| proof.verify(&pk(&p["k0"]), &st, aux))
        }
        "mod" => done!(ModProof<P>, ModProof::<P>::new(&mut r, &sk(&w["k"]), aux), |proof| proof.verify(&pk(&p["k0"]), aux)),
        "prm" => {
            let st = setup(&v["setup"]);
            done!(PrmProof<P>, PrmProof::<P>::new(&mut r, &rps(u(&w["seed"])), &st, aux), |proof| proof.verify(&st, aux))
        }
        "sch" => {
            // the commitment is a separate value
            let x = pt(&p["x"]);
            if prove {
                let secret = SchSecret::<P>::random(&mut r);
                let commitment = SchCommitment::new(&secret);
                let proof = SchProof::new(&secret, &secs(&w["x"]), &commitment, &x, aux);
                Ok(json!({"commitment": ser(&commitment)?, "proof": ser(&proof)?}))
            } else {
                let c: SchCommitment<P> = de(&v["json"]["commitment"])?;
                let proof: SchProof<P> = de(&v["json"]["proof"])?;
                Ok(json!(proof.verify(&c, &x, aux)))
            }
        }
        t => Err(format!("proof {t}")),
    }
}
