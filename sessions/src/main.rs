//! Sessions of the protocols of /repo over the stand-in for manul: honest messages are accepted, a tampered message is either
//! accepted, and then convicted by no evidence, or rejected, and then convicted by its evidence.
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use manul::protocol::*;
use synedrion::signature::hazmat::PrehashVerifier;
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use synedrion::{dev::TestParams, *};

const FRAMED: &str = "an accepted message is convicted in the name of a party that did not receive it";

type Msgs = BTreeMap<(u8, u8, u8), ProtocolMessage>; // (from, to, round)
type Ad<P> = <<P as Protocol<u8>>::ProtocolError as ProtocolError<u8>>::AssociatedData;

struct Case<'a, P: Protocol<u8>> {
    name: &'a str,
    ids: BTreeSet<u8>,
    rnd: &'a [u8],
    ad: Option<Ad<P>>,
    err: fn(Value) -> Value,
    /// (round, error, fields)
    errors: Vec<(u8, &'a str, Vec<&'a str>)>,
    fails: Vec<Value>,
    cases: u64,
    tampers: usize,
    rejected: BTreeMap<String, u64>,
}

fn text(p: &[u8]) -> Value {
    serde_json::from_slice(p).unwrap_or_else(|_| Value::String(String::from_utf8_lossy(p).into()))
}

fn show(m: &ProtocolMessage) -> Value {
    let f = |p: Option<&[u8]>| p.map(text).unwrap_or(Value::Null);
    json!({"echo_broadcast": f(m.echo_broadcast.maybe_message()), "normal_broadcast": f(m.normal_broadcast.maybe_message()), "direct_message": f(m.direct_message.maybe_message())})
}

fn leaves(v: &mut Value) -> Vec<*mut Value> {
    let mut out = vec![v as *mut Value];
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| out.extend(leaves(x))),
        Value::Object(o) => o.values_mut().for_each(|x| out.extend(leaves(x))),
        _ => {}
    }
    out
}

/// another value of similar form
fn tamper(v: &mut Value, rng: &mut StdRng) {
    let ls = leaves(v);
    let p = ls[rng.gen_range(0..ls.len())];
    // the pointers are into v, which is not used otherwise while they are
    let v = unsafe { &mut *p };
    match v {
        Value::String(s) => {
            let mut b: Vec<u8> = s.clone().into_bytes();
            match rng.gen_range(0..4) {
                0 if !b.is_empty() => {
                    let k = rng.gen_range(0..b.len());
                    b[k] = b"0123456789abcdef"[rng.gen_range(0..16)];
                }
                1 => b.iter_mut().for_each(|x| if x.is_ascii_hexdigit() { *x = b'0' }),
                2 => {
                    b.pop();
                }
                _ if !b.is_empty() => {
                    let k = b.len() - 1;
                    b[k] = b"0123456789abcdef"[rng.gen_range(0..16)];
                }
                _ => b.push(b'0'),
            }
            *s = String::from_utf8(b).unwrap();
        }
        Value::Array(a) => match rng.gen_range(0..4) {
            0 => {
                a.pop();
            }
            1 if !a.is_empty() => {
                let k = rng.gen_range(0..a.len());
                a.remove(k);
            }
            2 if !a.is_empty() => {
                let x = a[rng.gen_range(0..a.len())].clone();
                a.push(x);
            }
            _ if a.len() > 1 => {
                let (i, j) = (rng.gen_range(0..a.len()), rng.gen_range(0..a.len()));
                a.swap(i, j);
            }
            _ => a.push(Value::Null),
        },
        Value::Number(n) => {
            let x = n.as_u64().unwrap_or(1);
            *v = json!(match rng.gen_range(0..3) { 0 => x ^ 1, 1 => x.wrapping_add(1), _ => 0 });
        }
        Value::Bool(b) => *b = !*b,
        Value::Object(o) => {
            let k = o.keys().next().cloned();
            if let Some(k) = k {
                o.remove(&k);
            }
        }
        Value::Null => *v = json!(0),
    }
}

fn tampered(m: &ProtocolMessage, others: &[ProtocolMessage], rng: &mut StdRng) -> ProtocolMessage {
    fn part<M: ProtocolMessagePart + Clone>(m: &M, others: Vec<M>, rng: &mut StdRng) -> M {
        match rng.gen_range(0..12) {
            0 => M::none(),
            1 => M::from_bytes(Vec::from("{}").into()),
            2 if !others.is_empty() => others[rng.gen_range(0..others.len())].clone(),
            _ => match m.maybe_message() {
                None => M::from_bytes(Vec::from("0").into()),
                Some(b) => {
                    let mut v = text(b);
                    tamper(&mut v, rng);
                    M::from_bytes(v.to_string().into_bytes().into())
                }
            },
        }
    }
    let mut r = m.clone();
    match rng.gen_range(0..3) {
        0 => r.echo_broadcast = part(&m.echo_broadcast, others.iter().map(|x| x.echo_broadcast.clone()).collect(), rng),
        1 => r.normal_broadcast = part(&m.normal_broadcast, others.iter().map(|x| x.normal_broadcast.clone()).collect(), rng),
        _ => r.direct_message = part(&m.direct_message, others.iter().map(|x| x.direct_message.clone()).collect(), rng),
    }
    r
}

impl<P: Protocol<u8>> Case<'_, P> {
    fn fail(&mut self, what: &str, input: Value, got: String) {
        if self.fails.iter().filter(|f| f["what"] == what && f["got"] == json!(got)).count() < 2 {
            self.fails.push(json!({"op": self.name, "what": what, "input": input, "got": got}));
        }
    }

    /// whether the evidence for an error in this message is accepted
    fn convicts(&self, msgs: &Msgs, err: &Value, guilty: u8, to: u8, msg: &ProtocolMessage) -> Result<bool, String> {
        let e: P::ProtocolError = serde_json::from_value(err.clone()).map_err(|e| format!("harness: {e}"))?;
        let keep = |m: &ProtocolMessage, p: &RequiredMessageParts| ProtocolMessage {
            echo_broadcast: if p.echo_broadcast { m.echo_broadcast.clone() } else { EchoBroadcast::none() },
            normal_broadcast: if p.normal_broadcast { m.normal_broadcast.clone() } else { NormalBroadcast::none() },
            direct_message: if p.direct_message { m.direct_message.clone() } else { DirectMessage::none() },
        };
        let req = e.required_messages();
        let num = |r: &RoundId| (1..9).find(|n| r == n).unwrap();
        let prev = req.previous_rounds.unwrap_or_default().iter().map(|(r, p)| (*r, keep(&msgs[&(guilty, to, num(r))], p))).collect();
        let echos = req.combined_echos.unwrap_or_default().iter().map(|r| (*r, self.ids.iter().filter(|x| **x != guilty).map(|x| (*x, msgs[&(*x, guilty, num(r))].echo_broadcast.clone())).collect())).collect();
        let msg = keep(msg, &req.this_round);
        let f = BoxedFormat::new();
        catch_unwind(AssertUnwindSafe(|| e.verify_messages_constitute_error(&f, &guilty, self.rnd, self.ad.as_ref().unwrap(), msg, prev, echos).is_ok())).map_err(|_| "panic".into())
    }

    /// checks what a party does with a message of this round
    fn check(&mut self, r: &BoxedRound<u8, P>, msgs: &Msgs, from: u8, to: u8, round: u8, msg: &ProtocolMessage, honest: bool) -> Option<Payload> {
        self.cases += 1;
        let f = BoxedFormat::new();
        let input = || json!({"from": from, "to": to, "round": round, "message": show(msg)});
        let o = catch_unwind(AssertUnwindSafe(|| r.0.receive_message(&f, &from, msg.clone())));
        let Ok(o) = o else {
            self.fail("receiving a message", input(), "panic".into());
            return None;
        };
        if self.ad.is_none() {
            return o.ok();
        }
        let rid = RoundId::new(round);
        let invalid = catch_unwind(AssertUnwindSafe(|| [P::verify_echo_broadcast_is_invalid(&f, &rid, &msg.echo_broadcast).is_ok(), P::verify_normal_broadcast_is_invalid(&f, &rid, &msg.normal_broadcast).is_ok(), P::verify_direct_message_is_invalid(&f, &rid, &msg.direct_message).is_ok()]));
        let Ok(invalid) = invalid else {
            self.fail("checking the parts of a message", input(), "panic".into());
            return None;
        };
        let invalid = invalid.iter().any(|x| *x);
        match o {
            Ok(p) => {
                *self.rejected.entry(format!("round {round}: accepted")).or_default() += 1;
                if invalid {
                    self.fail("an accepted message is reported as malformed", input(), "convicted".into());
                }
                for (n, e, fs) in self.errors.clone() {
                    if n == round {
                        for who in self.ids.clone() {
                            if fs.is_empty() && who != to || fs.contains(&"reported_by") && who == from {
                                continue;
                            }
                            let fields: serde_json::Map<String, Value> = fs.iter().map(|x| (x.to_string(), json!(who))).collect();
                            let ev = (self.err)(if fs.is_empty() { json!(e) } else { json!({e: fields}) });
                            let what = if fs.contains(&"reported_by") && who != to { FRAMED } else { "an accepted message is convicted" };
                            match self.convicts(msgs, &ev, from, to, msg) {
                                Ok(false) => {}
                                Ok(true) => self.fail(what, json!({"evidence": ev, "case": input()}), format!("convicted of {e}")),
                                Err(s) => self.fail("verifying evidence", json!({"evidence": ev, "case": input()}), s),
                            }
                        }
                    }
                }
                Some(p)
            }
            Err(e) => {
                let (what, got) = match e {
                    ReceiveError::Protocol(e) => {
                        let ev = serde_json::to_value(&e).unwrap();
                        let k = match &ev["error"] { Value::String(s) => s.clone(), Value::Object(o) => o.keys().next().cloned().unwrap_or_default(), _ => "?".into() };
                        *self.rejected.entry(format!("round {round}: {k}")).or_default() += 1;
                        match self.convicts(msgs, &ev, from, to, msg) {
                            Ok(true) => ("", String::new()),
                            Ok(false) => ("a rejected message is not convicted by its evidence", format!("{k}")),
                            Err(s) => ("verifying evidence", s),
                        }
                    }
                    ReceiveError::InvalidMessage(_) => {
                        *self.rejected.entry(format!("round {round}: malformed")).or_default() += 1;
                        if invalid { ("", String::new()) } else { ("a message rejected as malformed has no part that is reported as invalid", String::new()) }
                    }
                    ReceiveError::Local(l) => ("a message of a participant is a local error", format!("{l}")),
                    _ => ("", String::new()),
                };
                if !what.is_empty() {
                    self.fail(what, input(), got);
                }
                if honest {
                    self.fail("the message of an honest party is rejected", input(), String::new());
                }
                None
            }
        }
    }

    fn run<E: EntryPoint<u8, Protocol = P>>(&mut self, entries: BTreeMap<u8, E>, rng: &mut StdRng) -> BTreeMap<u8, P::Result> {
        let f = BoxedFormat::new();
        let mut rounds: BTreeMap<u8, BoxedRound<u8, P>> = entries.into_iter().map(|(id, e)| (id, e.make_round(rng, self.rnd, &id).unwrap())).collect();
        let mut msgs = Msgs::new();
        let mut results = BTreeMap::new();
        for n in 1u8.. {
            let mut arts: BTreeMap<u8, BTreeMap<u8, Artifact>> = BTreeMap::new();
            for (id, r) in &rounds {
                let eb = r.0.make_echo_broadcast(rng, &f).unwrap();
                let nb = r.0.make_normal_broadcast(rng, &f).unwrap();
                for to in r.0.communication_info().message_destinations {
                    let (dm, art) = r.0.make_direct_message(rng, &f, &to).unwrap();
                    if let Some(a) = art {
                        arts.entry(*id).or_default().insert(to, a);
                    }
                    msgs.insert((*id, to, n), ProtocolMessage { echo_broadcast: eb.clone(), normal_broadcast: nb.clone(), direct_message: dm });
                }
            }
            let mut next = BTreeMap::new();
            for (id, r) in rounds {
                let mut pl = BTreeMap::new();
                for from in r.0.communication_info().expecting_messages_from {
                    let m = msgs[&(from, id, n)].clone();
                    let others: Vec<_> = msgs.iter().filter(|(k, _)| k.2 == n && (k.0, k.1) != (from, id)).map(|(_, m)| m.clone()).collect();
                    for _ in 0..self.tampers {
                        let t = tampered(&m, &others, rng);
                        self.check(&r, &msgs, from, id, n, &t, false);
                    }
                    let Some(p) = self.check(&r, &msgs, from, id, n, &m, true) else { return results };
                    pl.insert(from, p);
                }
                let o = catch_unwind(AssertUnwindSafe(|| r.0.finalize(rng, pl, arts.remove(&id).unwrap_or_default())));
                match o {
                    Ok(Ok(FinalizeOutcome::AnotherRound(r))) => {
                        next.insert(id, r);
                    }
                    Ok(Ok(FinalizeOutcome::Result(x))) => {
                        results.insert(id, x);
                    }
                    Ok(Err(e)) => self.fail("a round of honest parties fails", json!({"party": id, "round": n}), format!("{e}")),
                    Err(_) => self.fail("a round of honest parties fails", json!({"party": id, "round": n}), "panic".into()),
                }
            }
            if next.is_empty() {
                break;
            }
            rounds = next;
        }
        results
    }
}


type T = TestParams;
type Key = KeyShare<T, u8>;
type Aux = AuxInfo<T, u8>;

fn hook_errors(xs: &[(u8, &'static str, &'static str)]) -> Vec<(u8, &'static str, Vec<&'static str>)> {
    xs.iter().map(|(r, e, f)| (*r, *e, if f.is_empty() { vec![] } else { vec![*f] })).collect()
}

/// an error as it is serialized
fn plain(e: Value) -> Value {
    json!({"error": e})
}

fn phantom(e: Value) -> Value {
    json!({"error": e, "phantom": null})
}

struct Run {
    rng: StdRng,
    tampers: usize,
    only: Vec<String>,
}

impl Run {
    fn case<'a, P: Protocol<u8>>(&self, name: &'a str, ids: &BTreeSet<u8>, rnd: &'a [u8], ad: Option<Ad<P>>, err: fn(Value) -> Value, errors: &[(u8, &'static str, &'static str)]) -> Case<'a, P> {
        let on = self.only.is_empty() || self.only.iter().any(|x| x == name);
        Case { name, ids: ids.clone(), rnd, ad, err, errors: hook_errors(errors), fails: vec![], cases: 0, tampers: if on { self.tampers } else { 0 }, rejected: BTreeMap::new() }
    }

    fn report<P: Protocol<u8>>(&self, c: Case<'_, P>) {
        if self.only.is_empty() || self.only.iter().any(|x| x == c.name) {
            println!("{}", json!({"op": c.name, "cases": c.cases, "fails": c.fails, "rejected": c.rejected}));
        }
    }

    fn key_init(&mut self, ids: &BTreeSet<u8>) -> BTreeMap<u8, Key> {
        let rnd: [u8; 8] = self.rng.gen();
        let mut c = self.case::<KeyInitProtocol<T, u8>>("KeyInit", ids, &rnd, Some(KeyInitAssociatedData { ids: ids.clone() }), phantom, &[(2, "R2HashMismatch", ""), (3, "R3InvalidSchProof", "")]);
        let r = c.run(ids.iter().map(|i| (*i, KeyInit::<T, u8>::new(ids.clone()).unwrap())).collect(), &mut self.rng);
        c.agreed(&r, |k| serde_json::to_value(k).unwrap()["public"].clone());
        self.report(c);
        r
    }

    fn aux_gen(&mut self, ids: &BTreeSet<u8>) -> BTreeMap<u8, Aux> {
        let rnd: [u8; 8] = self.rng.gen();
        let es = [(2, "R2HashMismatch", ""), (2, "R2PaillierModulusTooSmall", ""), (2, "R2RPModulusTooSmall", ""), (2, "R2PrmFailed", ""), (3, "R3ModFailed", ""), (3, "R3FacFailed", "reported_by")];
        let mut c = self.case::<AuxGenProtocol<T, u8>>("AuxGen", ids, &rnd, Some(AuxGenAssociatedData { ids: ids.clone() }), phantom, &es);
        let r = c.run(ids.iter().map(|i| (*i, AuxGen::<T, u8>::new(ids.clone()).unwrap())).collect(), &mut self.rng);
        c.agreed(&r, |k| serde_json::to_value(k).unwrap()["public"].clone());
        self.report(c);
        r
    }

    fn key_refresh(&mut self, ids: &BTreeSet<u8>) -> BTreeMap<u8, (KeyShareChange<T, u8>, Aux)> {
        let rnd: [u8; 8] = self.rng.gen();
        let es = [
            (2, "R2HashMismatch", ""), (2, "R2WrongIdsX", ""), (2, "R2WrongIdsY", ""), (2, "R2WrongIdsA", ""), (2, "R2PaillierModulusTooSmall", ""), (2, "R2RPModulusTooSmall", ""),
            (2, "R2NonZeroSumOfChanges", ""), (2, "R2PrmFailed", ""), (3, "R3ModFailed", ""), (3, "R3FacFailed", "reported_by"), (3, "R3WrongIdsHatPsi", ""), (3, "R3SchFailed", "failed_for"),
        ];
        let mut c = self.case::<KeyRefreshProtocol<T, u8>>("KeyRefresh", ids, &rnd, Some(KeyRefreshAssociatedData { ids: ids.clone() }), plain, &es);
        let r = c.run(ids.iter().map(|i| (*i, KeyRefresh::<T, u8>::new(ids.clone()).unwrap())).collect(), &mut self.rng);
        c.agreed(&r, |k| serde_json::to_value(&k.1).unwrap()["public"].clone());
        self.report(c);
        r
    }

    /// signs; the signature is valid for the key
    fn sign(&mut self, name: &str, keys: &BTreeMap<u8, Key>, aux: &BTreeMap<u8, Aux>, vk: &Vk) {
        let ids: BTreeSet<u8> = keys.keys().copied().collect();
        let rnd: [u8; 8] = self.rng.gen();
        let mut message = PrehashedMessage::<<T as SchemeParams>::Curve>::default();
        message.iter_mut().for_each(|x| *x = self.rng.gen());
        let public = |v: Value| v["public"].clone();
        let (k, a) = (keys.values().next().unwrap(), aux.values().next().unwrap());
        let ad = InteractiveSigningAssociatedData::<T, u8>::new(message, serde_json::from_value(public(serde_json::to_value(k).unwrap())).unwrap(), serde_json::from_value(public(serde_json::to_value(a).unwrap())).unwrap()).unwrap();
        let es = [
            (1, "R1EncElg0Failed", "reported_by"), (1, "R1EncElg1Failed", "reported_by"), (2, "R2WrongIdsD", ""), (2, "R2WrongIdsF", ""), (2, "R2WrongIdsPsi", ""), (2, "R2AffGPsiFailed", "failed_for"),
            (2, "R2AffGHatPsiFailed", "failed_for"), (2, "R2ElogFailed", ""), (3, "R3ElogFailed", ""), (4, "R4InvalidSignatureShare", ""),
        ];
        let mut c = self.case::<InteractiveSigningProtocol<T, u8>>(name, &ids, &rnd, Some(ad), phantom, &es);
        let mut r = BTreeMap::new();
        let entries: Result<_, _> = ids.iter().map(|i| InteractiveSigning::<T, u8>::new(message, keys[i].clone(), aux[i].clone()).map(|e| (*i, e))).collect();
        match entries {
            Ok(es) => r = c.run(es, &mut self.rng),
            Err(e) => c.fail("signing can be started with the results of the other protocols", json!({"ids": ids}), format!("{e}")),
        }
        if c.fails.iter().all(|f| f["what"] == FRAMED) {
            for i in &ids {
                match r.remove(i).map(|s| s.to_backend()) {
                    None => c.fail("an honest session ends with a result", json!({"party": i}), "none".into()),
                    Some((s, _)) => {
                        if vk.verify_prehash(&message, &s).is_err() {
                            c.fail("the signature is valid for the key of the parties", json!({"party": i, "message": message.to_vec()}), "invalid".into());
                        }
                    }
                }
            }
        }
        self.report(c);
    }

    fn reshare(&mut self, keys: &BTreeMap<u8, Key>, vk: &Vk, new: &BTreeSet<u8>, threshold: usize) -> BTreeMap<u8, ThresholdKeyShare<T, u8>> {
        let old: BTreeSet<u8> = keys.keys().copied().collect();
        let all: BTreeSet<u8> = old.union(new).copied().collect();
        let rnd: [u8; 8] = self.rng.gen();
        let mut c = self.case::<KeyResharingProtocol<T, u8>>("KeyResharing", &all, &rnd, None, plain, &[]);
        let holder = |i: &u8| keys.get(i).map(|k| OldHolder { key_share: ThresholdKeyShare::from_key_share(k) });
        let r = c.run(all.iter().map(|i| (*i, KeyResharing::<T, u8>::new(holder(i), new.contains(i).then(|| NewHolder { verifying_key: *vk, old_threshold: old.len(), old_holders: old.clone() }), new.clone(), threshold))).collect(), &mut self.rng);
        let r: BTreeMap<u8, _> = r.into_iter().filter_map(|(i, x)| x.map(|x| (i, x))).collect();
        if c.fails.is_empty() {
            if r.keys().copied().collect::<BTreeSet<_>>() != *new {
                c.fail("exactly the new holders obtain a share", json!({"new": new}), format!("{:?}", r.keys()));
            }
            if r.values().any(|s| s.threshold() != threshold || s.verifying_key().ok() != Some(*vk)) {
                c.fail("the key and the new threshold are those of the shares", json!({"new": new}), "other".into());
            }
        }
        self.report(c);
        r
    }
}

impl<P: Protocol<u8>> Case<'_, P> {
    /// an honest session ends with a result for every party, and the parties agree on its public part
    fn agreed<R>(&mut self, r: &BTreeMap<u8, R>, public: fn(&R) -> Value) {
        if self.fails.iter().any(|f| f["what"] != FRAMED) {
            return;
        }
        let ps: Vec<Value> = r.values().map(public).collect();
        if r.len() != self.ids.len() {
            self.fail("an honest session ends with a result", json!({"parties": self.ids}), format!("{:?}", r.keys()));
        } else if ps.windows(2).any(|w| w[0] != w[1]) {
            self.fail("the parties agree on the public data of the result", json!({}), json!(ps).to_string());
        }
    }
}

type Vk = ecdsa::VerifyingKey<<T as SchemeParams>::Curve>;

fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("PANIC {} {:?}", i, i.location())));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (seed, tampers) = (a[0].parse().unwrap(), a[1].parse().unwrap());
    let only = a[2..].to_vec();
    let mut run = Run { rng: StdRng::seed_from_u64(seed), tampers, only: only.clone() };
    let on = |xs: &[&str]| only.is_empty() || only.iter().any(|x| xs.contains(&x.as_str()));
    for n in [3u8, 2] {
        let ids: BTreeSet<u8> = (1..=n).collect();
        let keys = run.key_init(&ids);
        let aux = run.aux_gen(&ids);
        if !on(&["KeyRefresh", "InteractiveSigning", "KeyResharing"]) {
            continue;
        }
        if keys.len() != ids.len() || aux.len() != ids.len() {
            println!("{}", json!({"op": "none", "skipped": "key initialization or auxiliary data generation does not succeed"}));
            continue;
        }
        let vk = keys[&1].verifying_key();
        run.sign("InteractiveSigning", &keys, &aux, &vk);
        let changes = run.key_refresh(&ids);
        if changes.len() == ids.len() {
            let mut c = run.case::<KeyRefreshProtocol<T, u8>>("KeyRefresh", &ids, &[], None, plain, &[]);
            let (mut keys2, mut aux2) = (BTreeMap::new(), BTreeMap::new());
            for (i, (change, a)) in changes {
                aux2.insert(i, a);
                match keys[&i].clone().update(change) {
                    Ok(k) => {
                        keys2.insert(i, k);
                    }
                    Err(e) => c.fail("the change can be applied to the key share", json!({"party": i}), format!("{e}")),
                }
            }
            c.agreed(&keys2, |k| serde_json::to_value(k).unwrap()["public"].clone());
            if keys2.values().any(|k| k.verifying_key() != vk) {
                c.fail("the key does not change", json!({}), "changed".into());
            }
            for i in keys2.keys() {
                if serde_json::to_value(&keys2[i]).unwrap()["secret"] == serde_json::to_value(&keys[i]).unwrap()["secret"] {
                    c.fail("the secret shares change", json!({"party": i}), "unchanged".into());
                }
            }
            let good = c.fails.is_empty();
            run.report(c);
            if good {
                let t = std::mem::take(&mut run.tampers);
                run.sign("InteractiveSigning", &keys2, &aux2, &vk);
                run.tampers = t;
            }
        }
        let new: BTreeSet<u8> = (2..=n + 1).collect();
        let shares = run.reshare(&keys, &vk, &new, 2);
        if shares.len() == new.len() {
            let two: BTreeSet<u8> = shares.keys().rev().take(2).copied().collect();
            let mut c = run.case::<KeyResharingProtocol<T, u8>>("KeyResharing", &new, &[], None, plain, &[]);
            let mut keys = BTreeMap::new();
            for i in &two {
                match shares[i].to_key_share(&two) {
                    Ok(k) => {
                        keys.insert(*i, k);
                    }
                    Err(e) => c.fail("enough shares make key shares", json!({"party": i}), format!("{e}")),
                }
            }
            c.ids = two.clone();
            c.agreed(&keys, |k| serde_json::to_value(k).unwrap()["public"].clone());
            if keys.values().any(|k| k.verifying_key() != vk) {
                c.fail("the key does not change", json!({}), "changed".into());
            }
            let good = c.fails.is_empty();
            run.report(c);
            if good {
                let aux = AuxInfo::<T, u8>::new_centralized(&mut run.rng, &two);
                let t = std::mem::take(&mut run.tampers);
                run.sign("InteractiveSigning", &keys, &aux, &vk);
                run.tampers = t;
            }
        }
    }
}
