//! P22: the published JavaScript client. Its sources are bundled from /repo
//! and run by node; every instruction it builds is executed.
use crate::clients::{account_of, any_data, any_keys, program_errors, values, LOCKS, V};
use crate::mutate::Rng;
use crate::sim::*;
use crate::svm::*;
use crate::wire::*;
use serde_json::{json, Map, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::str::FromStr;
use std::sync::OnceLock;

fn mm(msg: String) -> Mismatch {
    Mismatch { props: vec!["P22"], msg }
}

/// The bundle of driver and client, made once per process.
fn bundle() -> &'static PathBuf {
    static B: OnceLock<PathBuf> = OnceLock::new();
    B.get_or_init(|| {
        let here = env!("CARGO_MANIFEST_DIR");
        let out = std::env::temp_dir().join(format!("vh-js-{}.mjs", std::process::id()));
        let o = Command::new("/opt/veriftools/node/node_modules/.bin/esbuild")
            .arg(format!("{here}/js/driver.mjs"))
            .args(["--bundle", "--platform=node", "--format=esm", "--target=node20", "--log-level=error", "--tsconfig-raw={}"])
            .arg(format!("--alias:@metaplex-foundation/umi/serializers={here}/js/serializers.mjs"))
            .arg(format!("--alias:@metaplex-foundation/umi={here}/js/umi.mjs"))
            .arg(format!("--alias:CLIENT={here}/../../repo/clients/js/src/index.ts"))
            .arg(format!("--outfile={}", out.display()))
            .output()
            .expect("esbuild runs");
        if !o.status.success() {
            eprintln!("the JavaScript client cannot be bundled:\n{}", String::from_utf8_lossy(&o.stderr));
            std::process::exit(2);
        }
        out
    })
}

/// Removes the bundle.
pub fn cleanup() {
    let _ = std::fs::remove_file(std::env::temp_dir().join(format!("vh-js-{}.mjs", std::process::id())));
}

struct Node {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Node {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static NODE: RefCell<Option<Node>> = const { RefCell::new(None) };
}

fn ask(q: &Value) -> Value {
    NODE.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.get_or_insert_with(|| {
            let mut child = Command::new("node")
                .arg(bundle())
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .expect("node runs");
            let to = child.stdin.take().unwrap();
            let from = BufReader::new(child.stdout.take().unwrap());
            Node { child, to, from }
        });
        let mut line = q.to_string();
        line.push('\n');
        n.to.write_all(line.as_bytes()).expect("node reads");
        let mut a = String::new();
        n.from.read_line(&mut a).expect("node answers");
        serde_json::from_str(&a).expect("answer")
    })
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// The accounts each function of the client takes.
fn takes(d: &Data) -> (&'static str, &'static [&'static str]) {
    match d {
        Data::InitPool { .. } => (
            "initializePool",
            &["rewardPool", "rewardMint", "vault", "payer", "depositAuthority", "rent", "tokenProgram", "systemProgram"],
        ),
        Data::Fill { .. } => {
            ("fillVault", &["rewardPool", "rewardMint", "vault", "fillAuthority", "sourceTokenAccount", "tokenProgram"])
        }
        Data::InitMining { .. } => ("initializeMining", &["rewardPool", "mining", "payer", "systemProgram"]),
        Data::Deposit { .. } => ("depositMining", &["rewardPool", "mining", "depositAuthority", "delegateMining"]),
        Data::Withdraw { .. } => ("withdrawMining", &["rewardPool", "mining", "depositAuthority", "delegateMining"]),
        Data::Claim => (
            "claim",
            &["rewardPool", "rewardMint", "vault", "mining", "miningOwner", "depositAuthority", "miningOwnerRewardTokenAccount", "tokenProgram"],
        ),
        Data::Extend { .. } => ("extendStake", &["rewardPool", "mining", "depositAuthority", "delegateMining"]),
        Data::Distribute => ("distributeRewards", &["rewardPool", "distributeAuthority"]),
        Data::Close => ("closeMining", &["mining", "miningOwner", "targetAccount", "depositAuthority", "rewardPool"]),
        Data::ChangeDelegate { .. } => (
            "changeDelegate",
            &["rewardPool", "mining", "depositAuthority", "miningOwner", "oldDelegateMining", "newDelegateMining"],
        ),
        Data::Slash { .. } => ("slash", &["depositAuthority", "rewardPool", "mining"]),
        Data::Penalty { .. } => ("decreaseRewards", &["depositAuthority", "rewardPool", "mining"]),
    }
}

/// The client's instruction and the signatures it asks for.
fn built(d: &Data, k: &Keys, style: u8, out: &mut Out) -> Option<(Instruction, Vec<Pubkey>)> {
    let (f, names) = takes(d);
    let need = signers(&instruction(d, k));
    let mut accounts = Map::new();
    for n in names {
        let key = account_of(n, k).unwrap();
        let default = matches!(*n, "payer" | "rent" | "tokenProgram" | "systemProgram");
        accounts.insert(n.to_string(), json!({"k": key.to_string(), "s": need.contains(&key), "d": default}));
    }
    let mut args = Map::new();
    let mut want = Map::new();
    want.insert("discriminator".into(), json!(tag(d).to_string()));
    for (n, v) in values(d) {
        let (a, w) = match v {
            V::N(x) => (json!({"n": x.to_string()}), json!(x.to_string())),
            V::K(x) => (json!({"k": x.to_string()}), json!(x.to_string())),
            V::L(x) => (json!({"l": LOCKS[x as usize]}), json!(x.to_string())),
            V::O(None) => (json!({"o": null}), json!({"__option": "None"})),
            V::O(Some(x)) => (json!({"o": x.to_string()}), json!({"__option": "Some", "value": x.to_string()})),
        };
        args.insert(n.to_string(), a);
        want.insert(n.to_string(), w);
    }
    let a = ask(&json!({"op": "ix", "name": f, "accounts": accounts, "args": args, "style": style, "payer": k.payer.to_string()}));
    if let Some(e) = a.get("error") {
        out.push(mm(format!("{f} of the JavaScript client fails: {e}")));
        return None;
    }
    if a["n"] != 1 {
        out.push(mm(format!("{f} of the JavaScript client builds {} instructions", a["n"])));
    }
    let pk = |v: &Value| v.as_str().and_then(|s| Pubkey::from_str(s).ok()).unwrap_or(Pubkey::new_from_array([0xee; 32]));
    let empty = vec![];
    let accounts = a["keys"]
        .as_array()
        .unwrap_or(&empty)
        .iter()
        .map(|m| AccountMeta {
            pubkey: pk(&m[0]),
            is_signer: m[1].as_bool().unwrap_or(false),
            is_writable: m[2].as_bool().unwrap_or(false),
        })
        .collect();
    let data = unhex(a["data"].as_str().unwrap_or(""));
    if a["used"] != data.len() || a["back"] != Value::Object(want.clone()) {
        out.push(mm(format!("{f} of the JavaScript client: {} was encoded and decoded as {}", Value::Object(want), a["back"])));
    }
    let sig = a["signers"].as_array().unwrap_or(&empty).iter().map(pk).collect();
    Some((Instruction { program_id: pk(&a["program"]), accounts, data }, sig))
}

fn compare(sim: &mut Sim, d: &Data, k: &Keys, style: u8, out: &mut Out) {
    let nm = name(tag(d));
    let ix = instruction(d, k);
    let mut w0 = sim.w.clone();
    let r0 = w0.exec(&ix, &signers(&ix));
    let Some((cix, sig)) = built(d, k, style, out) else { return };
    if cix.program_id != pid() {
        out.push(mm(format!("{nm}: the JavaScript client addresses another program")));
        return;
    }
    let mut w = sim.w.clone();
    let r = w.exec(&cix, &sig);
    if r.is_ok() != r0.is_ok() {
        out.push(mm(format!(
            "{nm} by the JavaScript client is {} but should be {}: {:?} / {:?}",
            if r.is_ok() { "accepted" } else { "refused" },
            if r0.is_ok() { "accepted" } else { "refused" },
            r.err().map(|e| e.short()),
            r0.as_ref().err().map(|e| e.short())
        )));
    } else if !w.diff(&w0).is_empty() {
        out.push(mm(format!("{nm} by the JavaScript client has another effect")));
    } else if r.is_ok() {
        sim.stats.add("client_accepted", 1);
    }
    if let Err(TxErr::Program(ProgramError::Custom(c))) = &r0 {
        let known = ask(&json!({"op": "err", "code": c}));
        if known["name"].is_null() {
            out.push(mm(format!("{nm} returned the error {c}, unknown to the JavaScript client")));
        }
    }
}

fn tables(extra: u32, out: &mut Out) {
    let i = ask(&json!({"op": "info", "install": extra % 2 == 0}));
    let id = pid().to_string();
    let ok = i["id"] == id
        && i["key"] == id
        && i["name"] == "mplxRewards"
        && (i["installed"].is_null() || i["installed"] == id)
        && i["viaContext"] == id;
    if !ok {
        out.push(mm(format!("the JavaScript client's program is {i}")));
    }
    if i["lockups"] != json!(LOCKS) || i["types"] != json!(["Uninitialized", "RewardPool", "Mining"]) {
        out.push(mm(format!("the JavaScript client's enumerations are {i}")));
    }
    if i["lockupBytes"] != json!(["00", "01", "02", "03", "04"]) || i["typeBytes"] != json!(["00", "01", "02"]) {
        out.push(mm(format!("the JavaScript client's enumerations are encoded as {i}")));
    }
    let mut known = vec![];
    for e in program_errors() {
        let nm = format!("{e:?}");
        let ProgramError::Custom(code) = ProgramError::from(e) else { continue };
        known.push(code);
        let a = ask(&json!({"op": "err", "code": code}));
        let ok = a["name"] == nm && a["code"] == code && a["byName"] == code && a["viaProgram"] == nm && a["viaProgramName"] == code;
        if !ok {
            out.push(mm(format!("error {code} is {nm} in the program and {a} in the JavaScript client")));
        }
    }
    let code = extra % 40;
    if !known.contains(&code) && !ask(&json!({"op": "err", "code": code}))["name"].is_null() {
        out.push(mm(format!("the JavaScript client knows an error {code}")));
    }
}

/// One stored account as the client reads it.
fn stored(kind: &str, key: &Pubkey, a: &Acc, want: Value, out: &mut Out) {
    let r = ask(&json!({"op": "acc", "kind": kind, "key": key.to_string(), "owner": a.owner.to_string(), "hex": hex(&a.data)}));
    if let Some(e) = r.get("error") {
        out.push(mm(format!("the JavaScript client cannot read a {kind}: {e}")));
        return;
    }
    let mut seen = vec![r["main"].clone(), r["gpa"].clone()];
    seen.extend(r["fetched"].as_array().cloned().unwrap_or_default());
    for s in seen {
        if s["publicKey"] != key.to_string() {
            out.push(mm(format!("the JavaScript client returns the {kind} under another address: {s}")));
        }
        for (n, v) in want.as_object().unwrap() {
            if s[n] != *v {
                out.push(mm(format!("the {kind}'s {n} is {v} but the JavaScript client reads {}", s[n])));
                return;
            }
        }
    }
    if r["missing"] != 2 {
        out.push(mm(format!("the JavaScript client does not notice a missing {kind}")));
    }
    let again = unhex(r["again"].as_str().unwrap_or(""));
    if again.is_empty() || a.data.get(..again.len()) != Some(&again[..]) || r["size"] != again.len() {
        out.push(mm(format!("the {kind} read by the JavaScript client is written back differently")));
    }
    if r["gpaProgram"] != pid().to_string() {
        out.push(mm(format!("{kind}s are searched in another program: {}", r["gpaProgram"])));
    }
    let fields = r["fields"].as_array().cloned().unwrap_or_default();
    if fields.len() != want.as_object().unwrap().len() {
        out.push(mm(format!("{kind}s can be searched by {} fields", fields.len())));
    }
    for f in fields {
        let (at, b) = (f[1].as_u64().unwrap_or(u64::MAX) as usize, unhex(f[2].as_str().unwrap_or("")));
        if at > a.data.len() || a.data.get(at..at + b.len()) != Some(&b[..]) {
            out.push(mm(format!("a search for a {kind} by its own {} does not find it", f[0])));
        }
    }
}

fn decoders(sim: &Sim, out: &mut Out) {
    for pc in &sim.cx.pools {
        let Some(a) = sim.w.get(&pc.pool) else { continue };
        let Some(h) = pool_hdr(a) else { continue };
        let want = json!({
            "depositAuthority": h.deposit_auth.to_string(),
            "distributeAuthority": h.dist_auth.to_string(),
            "fillAuthority": h.fill_auth.to_string(),
            "rewardMint": h.mint.to_string(),
            "indexWithPrecision": h.index.to_string(),
            "totalShare": h.total.to_string(),
            "distributionEndsAt": h.ends.to_string(),
            "tokensAvailableForDistribution": h.avail.to_string(),
            "tokenAccountBump": h.bump.to_string(),
            "data": a.data[169..176].iter().map(|b| b.to_string()).collect::<Vec<_>>(),
        });
        stored("rewardPool", &pc.pool, a, want, out);
    }
    for p in 0..sim.cx.pools.len() {
        for u in 0..sim.cx.users.len() {
            let key = sim.cx.users[u].mining[p];
            let Some(a) = sim.w.get(&key) else { continue };
            let Some(h) = mining_hdr(a) else { continue };
            let want = json!({
                "rewardPool": h.pool.to_string(),
                "owner": h.owner.to_string(),
                "rewardMint": Pubkey::new_from_array(a.data[64..96].try_into().unwrap()).to_string(),
                "indexWithPrecision": h.index.to_string(),
                "share": h.share.to_string(),
                "unclaimedRewards": h.unclaimed.to_string(),
                "stakeFromOthers": h.sfo.to_string(),
                "bump": h.bump.to_string(),
                "data": a.data[137..144].iter().map(|b| b.to_string()).collect::<Vec<_>>(),
            });
            stored("mining", &key, a, want, out);
        }
    }
}

/// Arguments no history leads to are encoded all the same.
fn free(sim: &mut Sim, rng: &mut Rng, salt: u16, out: &mut Out) {
    for _ in 0..6 {
        let (d, k) = (any_data(rng, salt), any_keys(rng, salt));
        let Some((i, _)) = built(&d, &k, rng.below(16) as u8, out) else { continue };
        if i.data != encode(&d) || i.program_id != pid() {
            out.push(mm(format!("{d:?} by the JavaScript client is encoded as {:?} instead of {:?}", i.data, encode(&d))));
        }
        sim.stats.add("encodings_compared", 1);
    }
}

pub fn run(sim: &mut Sim, case: &Case, out: &mut Out) {
    let mut rng = Rng::new(&case.x);
    free(sim, &mut rng, case.cfg.salt, out);
    tables(rng.below(1 << 20) as u32, out);
    // a pool of its own
    let np = key(case.cfg.salt, "newpool", 0);
    sim.w.put(np, blank_pool_acc());
    let k = Keys {
        pool: np,
        mint: sim.cx.pools[0].mint,
        vault: vault_pda(&np, &sim.cx.pools[0].mint).0,
        payer: sim.cx.payer,
        deposit_auth: sim.cx.pools[0].deposit_auth,
        ..Default::default()
    };
    let d = Data::InitPool { fill: key(case.cfg.salt, "f", rng.below(9)), dist: key(case.cfg.salt, "d", rng.below(9)) };
    compare(sim, &d, &k, rng.below(16) as u8, out);
    decoders(sim, out);
    for op in &case.ops {
        if sim.stop || sim.poisoned || !out.is_empty() {
            sim.stop = true;
            return;
        }
        if let Some((p, sem)) = sim.resolve(op) {
            let (d, k) = sim.call(p, &sem);
            compare(sim, &d, &k, rng.below(16) as u8, out);
            if !out.is_empty() {
                sim.log(|| format!("{sem:?} on pool {p}"));
                return;
            }
        }
        sim.step(op, out);
        if sim.poisoned {
            return;
        }
        if rng.below(3) == 0 {
            decoders(sim, out);
        }
    }
}
