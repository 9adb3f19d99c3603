use super::*;
use crate::{tools::Secret, uint::*};
use crypto_bigint::{modular::Retrieve, subtle::Choice, CheckedAdd, CheckedMul, CheckedSub, Integer, Monty, NonZero, Odd, Uint, U128, U192, U256, U512, U64};

fn ss<const L: usize>(v: &Value) -> SecretSigned<Uint<L>> {
    let x = uint::<L>(&v["x"]);
    Option::from(SecretSigned::new_from_unsigned(Secret::init_with(|| x), u(&v["b"]) as u32)).expect("harness: invalid signed")
}
fn ps<const L: usize>(v: &Value) -> PublicSigned<Uint<L>> {
    PublicSigned::new_from_unsigned(uint::<L>(&v["x"]), u(&v["b"]) as u32).expect("harness: invalid signed")
}
pub fn ssv<const L: usize>(x: &SecretSigned<Uint<L>>) -> Value {
    let raw = if bool::from(x.is_negative()) { x.abs_value().expose_secret().wrapping_neg() } else { *x.abs_value().expose_secret() };
    json!({"x": hx(&raw), "b": x.bound()})
}
pub fn psv<const L: usize>(x: &PublicSigned<Uint<L>>) -> Value { json!({"x": hx(x.value()), "b": x.bound()}) }
fn cto<const L: usize>(x: crypto_bigint::subtle::CtOption<SecretSigned<Uint<L>>>) -> Value {
    match Option::<SecretSigned<Uint<L>>>::from(x) { Some(x) => ssv(&x), None => Value::Null }
}
fn sec<const L: usize>(v: &Value) -> Secret<Uint<L>> { let x = uint::<L>(v); Secret::init_with(|| x) }

fn same<const L: usize>(f: &str, v: &Value) -> R where Uint<L>: Integer {
    Ok(match f {
        "checked_add" => cto(ss::<L>(&v["a"]).checked_add(&ss::<L>(&v["c"]))),
        "checked_add_pub" => cto(ss::<L>(&v["a"]).checked_add(&ps::<L>(&v["c"]))),
        "checked_sub" => cto(ss::<L>(&v["a"]).checked_sub(&ss::<L>(&v["c"]))),
        "checked_mul" => cto(ss::<L>(&v["a"]).checked_mul(&ss::<L>(&v["c"]))),
        "checked_mul_pub" => cto(ss::<L>(&v["a"]).checked_mul(&ps::<L>(&v["c"]))),
        "add" => ssv(&(ss::<L>(&v["a"]) + ss::<L>(&v["c"]))),
        "add_ref" => ssv(&(ss::<L>(&v["a"]) + &ss::<L>(&v["c"]))),
        "add_pub" => ssv(&(ss::<L>(&v["a"]) + ps::<L>(&v["c"]))),
        "sub" => ssv(&(ss::<L>(&v["a"]) - ss::<L>(&v["c"]))),
        "mul" => ssv(&(ss::<L>(&v["a"]) * ss::<L>(&v["c"]))),
        "mul_ref" => ssv(&(ss::<L>(&v["a"]) * &ss::<L>(&v["c"]))),
        "mul_pub" => ssv(&(ss::<L>(&v["a"]) * ps::<L>(&v["c"]))),
        "mul_pub_ref" => ssv(&(&ss::<L>(&v["a"]) * ps::<L>(&v["c"]))),
        "neg" => ssv(&ss::<L>(&v["a"]).neg()),
        "neg_op" => ssv(&-ss::<L>(&v["a"])),
        "neg_ref" => ssv(&-&ss::<L>(&v["a"])),
        "abs" => { let r = ss::<L>(&v["a"]).abs(); json!({"x": hx(r.expose_secret()), "b": r.bound()}) }
        "abs_value" => json!({"x": hx(ss::<L>(&v["a"]).abs_value().expose_secret())}),
        "is_negative" => json!(bool::from(ss::<L>(&v["a"]).is_negative())),
        "to_public" => psv(&ss::<L>(&v["a"]).to_public()),
        "ensure_range" => cto(ss::<L>(&v["a"]).ensure_exponent_range(u(&v["e"]) as u32)),
        "assert_range" => { ss::<L>(&v["a"]).assert_exponent_range(u(&v["e"]) as u32); json!(true) }
        "p_neg" => psv(&ps::<L>(&v["a"]).neg()),
        "p_neg_op" => psv(&-ps::<L>(&v["a"])),
        "p_abs" => json!({"x": hx(&ps::<L>(&v["a"]).abs())}),
        "p_is_negative" => json!(ps::<L>(&v["a"]).is_negative()),
        "p_in_range" => json!(ps::<L>(&v["a"]).is_in_exponent_range(u(&v["e"]) as u32)),
        "new_from_unsigned" => cto(SecretSigned::new_from_unsigned(sec::<L>(&v["x"]), u(&v["b"]) as u32)),
        "new_positive" => cto(SecretSigned::new_positive(sec::<L>(&v["x"]), u(&v["b"]) as u32)),
        "new_modulo" => cto(SecretSigned::new_modulo(sec::<L>(&v["x"]), &NonZero::new(uint::<L>(&v["m"])).unwrap(), u(&v["b"]) as u32)),
        "p_new_from_unsigned" => PublicSigned::new_from_unsigned(uint::<L>(&v["x"]), u(&v["b"]) as u32).map(|x| psv(&x)).unwrap_or(Value::Null),
        "p_new_positive" => PublicSigned::new_positive(uint::<L>(&v["x"]), u(&v["b"]) as u32).map(|x| psv(&x)).unwrap_or(Value::Null),
        "zero" => ssv(&SecretSigned::<Uint<L>>::zero()),
        "p_zero" => psv(&PublicSigned::<Uint<L>>::zero()),
        "p_one" => psv(&PublicSigned::<Uint<L>>::one()),
        "su_new" => match Option::<SecretUnsigned<Uint<L>>>::from(SecretUnsigned::new(sec::<L>(&v["x"]), u(&v["b"]) as u32)) {
            Some(x) => json!({"x": hx(x.expose_secret()), "b": x.bound()}), None => Value::Null },
        "su_add_mod" => {
            let m = uint::<L>(&v["m"]);
            let m = Secret::init_with(|| NonZero::new(m).unwrap());
            let mk = |x: &Value| Option::<SecretUnsigned<Uint<L>>>::from(SecretUnsigned::new(sec::<L>(&x["x"]), u(&x["b"]) as u32)).unwrap();
            let r = mk(&v["a"]).add_mod(&mk(&v["c"]), &m);
            json!({"x": hx(r.expose_secret()), "b": r.bound()})
        }
        "random" => {
            let mut r = rng(v);
            Value::Array((0..v["n"].as_u64().unwrap_or(1)).map(|_| ssv(&SecretSigned::<Uint<L>>::random_in_exponent_range(&mut r, u(&v["e"]) as u32))).collect())
        }
        "xof" => {
            let mut r = Xof { bytes: hex_to_bytes(s(&v["bytes"])), pos: 0 };
            let x = <Uint<L> as FromXofReader>::from_xof_reader(&mut r, u(&v["n"]) as u32);
            json!({"x": hx(&x), "read": r.pos})
        }
        "xof_range" => {
            let mut r = Xof { bytes: hex_to_bytes(s(&v["bytes"])), pos: 0 };
            let x = PublicSigned::<Uint<L>>::from_xof_reader_in_exponent_range(&mut r, u(&v["e"]) as u32);
            let mut j = psv(&x); j["read"] = json!(r.pos); j
        }
        "to_bytes" => json!(to_hex(&BoxedEncoding::to_be_bytes(&uint::<L>(&v["x"])))),
        "from_bytes" => json!(hx(&<Uint<L> as BoxedEncoding>::try_from_be_bytes(&hex_to_bytes(s(&v["bytes"])))?)),
        "ser_signed" => serde_json::to_value(ps::<L>(&v["a"])).map_err(|e| e.to_string())?,
        "de_signed" => psv(&serde_json::from_value::<PublicSigned<Uint<L>>>(v["json"].clone()).map_err(|e| e.to_string())?),
        "ser_uint" => serde_json::to_value(PublicUint::from(uint::<L>(&v["x"]))).map_err(|e| e.to_string())?,
        "de_uint" => json!(hx(&serde_json::from_value::<PublicUint<Uint<L>>>(v["json"].clone()).map_err(|e| e.to_string())?.inner())),
        "hash_signed" => super::h_tools::hash_of(&ps::<L>(&v["a"])),
        _ => return Err(format!("unknown op {f}")),
    })
}

macro_rules! pair { ($L:ident, $W:ident, $XW:ident, $l:expr, $w:expr, $xw:expr, $f:expr, $v:expr) => {{
    let (f, v): (&str, &Value) = ($f, $v);
    Ok(match f {
        "wide" => json!(hx(&<$L as Extendable<$W>>::to_wide(&uint::<$l>(&v["x"])))),
        "narrow" => match <$L as Extendable<$W>>::try_from_wide(&uint::<$w>(&v["x"])) { Some(x) => json!(hx(&x)), None => Value::Null },
        "mul_wide" => json!(hx(&<$L as MulWide<$L, $W>>::mul_wide(&uint::<$l>(&v["x"]), &uint::<$l>(&v["y"])))),
        "ss_to_wide" => ssv(&ss::<$l>(&v["a"]).to_wide::<$W>()),
        "ps_to_wide" => psv(&ps::<$l>(&v["a"]).to_wide::<$W>()),
        "mul_wide_public" => ssv(&ss::<$l>(&v["a"]).mul_wide_public::<$L, $W>(&ps::<$l>(&v["c"]))),
        "su_to_wide" => { let r = Option::<SecretUnsigned<$L>>::from(SecretUnsigned::new(sec::<$l>(&v["x"]), u(&v["b"]) as u32)).unwrap().to_wide::<$W>();
            json!({"x": hx(r.expose_secret()), "b": r.bound()}) }
        "random_scaled" => {
            let mut r = rng(v);
            Value::Array((0..v["n"].as_u64().unwrap_or(1)).map(|_| ssv(&SecretSigned::<$L>::random_in_exponent_range_scaled::<$W>(&mut r, u(&v["e"]) as u32, &uint::<$l>(&v["s"])))).collect())
        }
        "random_scaled_wide" => {
            let mut r = rng(v);
            Value::Array((0..v["n"].as_u64().unwrap_or(1)).map(|_| ssv(&SecretSigned::<$L>::random_in_exponent_range_scaled_wide::<$W, $XW>(&mut r, u(&v["e"]) as u32, &uint::<$w>(&v["s"])))).collect())
        }
        "pow" => {
            let p = <<$L as Integer>::Monty as Monty>::new_params_vartime(Odd::new(uint::<$l>(&v["m"])).unwrap());
            let g = uint::<$l>(&v["g"]).to_montgomery(&p);
            let r = match s(&v["kind"]) {
                "ss" => Exponentiable::<SecretSigned<$L>>::pow(&g, &ss::<$l>(&v["a"])),
                "ps" => Exponentiable::<PublicSigned<$L>>::pow(&g, &ps::<$l>(&v["a"])),
                "ssw" => Exponentiable::<SecretSigned<$W>>::pow(&g, &ss::<$w>(&v["a"])),
                "psw" => Exponentiable::<PublicSigned<$W>>::pow(&g, &ps::<$w>(&v["a"])),
                "su" => Exponentiable::<SecretUnsigned<$L>>::pow(&g, &Option::<SecretUnsigned<$L>>::from(SecretUnsigned::new(sec::<$l>(&v["a"]["x"]), u(&v["a"]["b"]) as u32)).unwrap()),
                _ => return Err("kind".into()),
            };
            json!(hx(&r.retrieve()))
        }
        "is_invertible" => json!(IsInvertible::is_invertible(&uint::<$l>(&v["x"]), &uint::<$l>(&v["m"]))),
        _ => return same::<$l>(f, v),
    })
}}}

type U320 = Uint<5>;
type U384 = Uint<6>;
type U640 = Uint<10>;
type U1024 = Uint<16>;
pub fn run(f: &str, v: &Value) -> R {
    match u(&v["t"]) {
        64 => pair!(U64, U128, U256, 1, 2, 4, f, v),
        128 => pair!(U128, U256, U320, 2, 4, 5, f, v),
        192 => pair!(U192, U384, U640, 3, 6, 10, f, v),
        256 => pair!(U256, U512, U640, 4, 8, 10, f, v),
        512 => pair!(U512, U1024, U1024, 8, 16, 16, f, v),
        t => Err(format!("width {t}")),
    }
}
