//! A stand-in for the Solana runtime, just large enough to run the real program
//! against a ledger handed to it as JSON and to report what it did.  It holds no
//! opinion about what the program should do: every judgement is made by the Quint
//! specification.
use serde_json::{json, Map, Value};
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, hash::hashv, instruction::Instruction,
    program_error::ProgramError, program_option::COption, program_pack::Pack, program_stubs,
    pubkey::Pubkey,
};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    /// a privilege escalation aborts the whole transaction, whatever the caller does with the error
    static ABORT: Cell<bool> = Cell::new(false);
    /// what accounts of other programs hold by their own programs' doing
    static SHADOW: RefCell<HashMap<Pubkey, Vec<u8>>> = RefCell::new(HashMap::new());
}
/// whether the data of a foreign account was changed behind its program's back
fn defaced(key: &Pubkey, data: &[u8]) -> bool {
    SHADOW.with(|s| s.borrow().get(key).map(|d| d.as_slice() != data).unwrap_or(false))
}

pub fn program_id() -> Pubkey {
    token_bonding_curve::ID
}

#[derive(Default)]
pub struct Names {
    fwd: HashMap<String, Pubkey>,
    rev: HashMap<Pubkey, String>,
    bump: HashMap<String, u8>,
}
impl Names {
    pub fn key(&mut self, n: &str) -> Pubkey {
        if let Some(k) = self.fwd.get(n) {
            return *k;
        }
        let k = match n {
            "TOK" => spl_token::id(),
            "PROG" => program_id(),
            "SYS" | "" => Pubkey::default(),
            _ => {
                if let Some(base) = n.strip_prefix("pda:") {
                    let b = self.key(base);
                    let (k, bump) = Pubkey::find_program_address(&[&b.to_bytes()], &program_id());
                    self.bump.insert(base.to_string(), bump);
                    k
                } else {
                    Pubkey::new_from_array(hashv(&[b"tbc-verif", n.as_bytes()]).to_bytes())
                }
            }
        };
        self.fwd.insert(n.to_string(), k);
        self.rev.insert(k, n.to_string());
        k
    }
    pub fn bump(&mut self, n: &str) -> u8 {
        self.key(&format!("pda:{}", n));
        self.bump[n]
    }
    pub fn name(&self, k: &Pubkey) -> String {
        match self.rev.get(k) {
            Some(n) => n.clone(),
            None => format!("?{}", k),
        }
    }
}

fn s<'a>(v: &'a Value, f: &str) -> &'a str {
    v[f].as_str().unwrap_or("")
}
pub fn num(v: &Value) -> u64 {
    match v {
        Value::String(x) => x.parse().expect("u64"),
        Value::Number(n) => n.as_u64().expect("u64"),
        _ => panic!("harness: not a number: {}", v),
    }
}
fn copt(names: &mut Names, n: &str) -> COption<Pubkey> {
    if n.is_empty() {
        COption::None
    } else {
        COption::Some(names.key(n))
    }
}

pub struct Acct {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub data: Vec<u8>,
    pub lamports: u64,
}

pub fn build(names: &mut Names, n: &str, o: &Value) -> Acct {
    let key = names.key(n);
    let mut owner = names.key(s(o, "prog"));
    let data = match s(o, "k") {
        "tok" => {
            let mut d = vec![0u8; spl_token::state::Account::LEN];
            if num(&o["st"]) != 0 {
                let a = spl_token::state::Account {
                    mint: names.key(s(o, "mint")),
                    owner: names.key(s(o, "own")),
                    amount: num(&o["amt"]),
                    delegate: copt(names, s(o, "dlg")),
                    state: if num(&o["st"]) == 2 {
                        spl_token::state::AccountState::Frozen
                    } else {
                        spl_token::state::AccountState::Initialized
                    },
                    is_native: COption::None,
                    delegated_amount: num(&o["dam"]),
                    close_authority: copt(names, s(o, "cls")),
                };
                spl_token::state::Account::pack(a, &mut d).unwrap();
            }
            d
        }
        "mint" => {
            let mut d = vec![0u8; spl_token::state::Mint::LEN];
            if num(&o["st"]) != 0 {
                let m = spl_token::state::Mint {
                    mint_authority: copt(names, s(o, "auth")),
                    supply: num(&o["sup"]),
                    decimals: 6,
                    is_initialized: true,
                    freeze_authority: copt(names, s(o, "frz")),
                };
                spl_token::state::Mint::pack(m, &mut d).unwrap();
            }
            d
        }
        "raw" => unhex(s(o, "hex")),
        _ => {
            if n == "TOK" || n == "PROG" || n == "FAKETOK" {
                owner = Pubkey::new_from_array([9u8; 32]);
            }
            vec![]
        }
    };
    Acct { key, owner, data, lamports: 1_000_000_000 }
}

pub fn unhex(h: &str) -> Vec<u8> {
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn project(names: &Names, kind: &str, owner: &Pubkey, d: &[u8]) -> Value {
    let on = |c: &COption<Pubkey>| match c {
        COption::Some(k) => names.name(k),
        COption::None => String::new(),
    };
    match kind {
        "tok" => {
            if d.iter().all(|x| *x == 0) {
                return json!({"k":"tok","st":"0","mint":"","own":"","amt":"0","dlg":"","dam":"0","cls":"","prog":names.name(owner)});
            }
            match spl_token::state::Account::unpack(d) {
                Ok(a) => json!({"k":"tok","mint":names.name(&a.mint),"own":names.name(&a.owner),
                    "amt":a.amount.to_string(),"dlg":on(&a.delegate),"dam":a.delegated_amount.to_string(),
                    "cls":on(&a.close_authority),"st":if a.is_frozen() {"2"} else {"1"},"prog":names.name(owner)}),
                Err(_) => json!({"k":"raw","hex":hex(d),"prog":names.name(owner)}),
            }
        }
        "mint" => match spl_token::state::Mint::unpack(d) {
            Ok(m) => json!({"k":"mint","auth":on(&m.mint_authority),"sup":m.supply.to_string(),
                    "frz":on(&m.freeze_authority),"st":"1","prog":names.name(owner)}),
            Err(_) => json!({"k":"raw","hex":hex(d),"prog":names.name(owner)}),
        },
        _ => json!({"k":"raw","hex":hex(d),"prog":names.name(owner)}),
    }
}

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let esc = || {
            ABORT.with(|a| a.set(true));
            Err(ProgramError::Custom(900_001))
        };
        let signers: Vec<Pubkey> = seeds
            .iter()
            .filter_map(|x| Pubkey::create_program_address(x, &program_id()).ok())
            .collect();
        if !infos.iter().any(|x| *x.key == ix.program_id) {
            ABORT.with(|a| a.set(true));
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        let mut call = vec![];
        for m in ix.accounts.iter() {
            let info = match infos.iter().find(|i| *i.key == m.pubkey) {
                Some(i) => i,
                None => {
                    ABORT.with(|a| a.set(true));
                    return Err(ProgramError::NotEnoughAccountKeys);
                }
            };
            let can_sign = info.is_signer || signers.contains(info.key);
            if (m.is_writable && !info.is_writable) || (m.is_signer && !can_sign) {
                return esc();
            }
            let mut i = info.clone();
            i.is_signer = m.is_signer;
            i.is_writable = m.is_writable;
            call.push(i);
        }
        if ix.program_id != spl_token::id() {
            ABORT.with(|a| a.set(true));
            return Err(ProgramError::IncorrectProgramId);
        }
        if infos.iter().any(|i| defaced(i.key, &i.data.borrow())) {
            ABORT.with(|a| a.set(true));
            return Err(ProgramError::Custom(900_004));
        }
        let before: Vec<Vec<u8>> = call.iter().map(|i| i.data.borrow().to_vec()).collect();
        let r = spl_token::processor::Processor::process(&ix.program_id, &call, &ix.data);
        if r.is_err() {
            // a failed cross-program call aborts the transaction
            ABORT.with(|a| a.set(true));
            return r;
        }
        for (i, b) in call.iter().zip(before.iter()) {
            if *i.data.borrow() != b.as_slice() && (*i.owner != spl_token::id() || !i.is_writable) {
                ABORT.with(|a| a.set(true));
                return Err(ProgramError::Custom(900_002));
            }
            SHADOW.with(|s| {
                if let Some(d) = s.borrow_mut().get_mut(i.key) {
                    *d = i.data.borrow().to_vec();
                }
            });
        }
        Ok(())
    }
}

pub type Runner = fn(&Value, &mut Names, &[AccountInfo]) -> ProgramResult;

fn code_of(e: &ProgramError) -> String {
    match e {
        ProgramError::Custom(n) => format!("{}", n),
        other => {
            let v: u64 = other.clone().into();
            format!("{}", 1_000_000 + (v >> 32))
        }
    }
}

fn run(req: &Value, names: &mut Names, runner: Runner) -> Value {
    let world = req["world"].as_object().expect("world");
    let order: Vec<String> =
        req["accts"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let set = |f: &str| -> Vec<String> {
        req[f].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
    };
    let (sg, ro) = (set("sg"), set("ro"));
    // every account of the ledger exists; only the named ones reach the program
    let mut uniq: Vec<String> = vec![];
    for n in &order {
        if !uniq.contains(n) {
            uniq.push(n.clone());
        }
    }
    let null = Value::Null;
    let mut accts: Vec<Acct> =
        uniq.iter().map(|n| build(names, n, world.get(n).unwrap_or(&null))).collect();
    let before: Vec<(Vec<u8>, u64, Pubkey)> =
        accts.iter().map(|a| (a.data.clone(), a.lamports, a.owner)).collect();
    ABORT.with(|a| a.set(false));
    SHADOW.with(|s| {
        let foreign = accts.iter().filter(|a| a.owner != program_id());
        *s.borrow_mut() = foreign.map(|a| (a.key, a.data.clone())).collect();
    });
    let res: Result<ProgramResult, String> = {
        let mut by: BTreeMap<String, AccountInfo> = BTreeMap::new();
        for (n, a) in uniq.iter().zip(accts.iter_mut()) {
            let Acct { key, owner, data, lamports } = a;
            let info = AccountInfo::new(
                key,
                sg.contains(n),
                !ro.contains(n),
                lamports,
                data.as_mut_slice(),
                owner,
                n == "TOK" || n == "PROG",
                0,
            );
            by.insert(n.clone(), info);
        }
        let infos: Vec<AccountInfo> = order.iter().map(|n| by[n].clone()).collect();
        let r = catch_unwind(AssertUnwindSafe(|| runner(req, names, &infos)));
        r.map_err(|e| {
            e.downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                .unwrap_or_default()
        })
    };
    let aborted = ABORT.with(|a| a.get());
    let mut out = Map::new();
    let mut ok = false;
    match &res {
        Err(p) => {
            out.insert("panic".into(), json!(p));
            out.insert("code".into(), json!("-1"));
        }
        Ok(Err(e)) => {
            out.insert("code".into(), json!(code_of(e)));
        }
        Ok(Ok(())) if aborted => {
            out.insert("code".into(), json!("900003"));
        }
        Ok(Ok(())) => {
            // the runtime's own checks on what a program may touch
            let mut denied = false;
            for ((n, a), b) in uniq.iter().zip(accts.iter()).zip(before.iter()) {
                let changed = a.data != b.0 || a.lamports != b.1 || a.owner != b.2;
                if changed && (ro.contains(n) || (a.owner != program_id() && a.owner != spl_token::id()))
                    || defaced(&a.key, &a.data) {
                    denied = true;
                }
            }
            if denied {
                out.insert("code".into(), json!("900004"));
            } else {
                ok = true;
                out.insert("code".into(), json!("0"));
            }
        }
    }
    let mut diff = Map::new();
    if ok {
        for ((n, a), b) in uniq.iter().zip(accts.iter()).zip(before.iter()) {
            if a.data != b.0 {
                let kind = world.get(n).map(|o| s(o, "k").to_string()).unwrap_or_default();
                diff.insert(n.clone(), project(names, &kind, &a.owner, &a.data));
            }
            if a.lamports != b.1 || a.owner != b.2 {
                diff.insert(n.clone(), json!({"k":"alien"}));
            }
        }
    }
    out.insert("ok".into(), json!(ok));
    out.insert("diff".into(), Value::Object(diff));
    Value::Object(out)
}

/// request loop: one JSON object per line in, one per line out
pub fn serve(runner: Runner, extra: fn(&Value) -> Option<Value>) {
    std::panic::set_hook(Box::new(|_| {}));
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let names = RefCell::new(Names::default());
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let req: Value = serde_json::from_str(&line).expect("json");
        let mut names = names.borrow_mut();
        let resp = match s(&req, "cmd") {
            "keys" => {
                let mut keys = Map::new();
                let mut bumps = Map::new();
                for n in req["names"].as_array().unwrap() {
                    let n = n.as_str().unwrap();
                    keys.insert(n.into(), json!(hex(names.key(n).as_ref())));
                }
                for n in req["bumps"].as_array().unwrap() {
                    let n = n.as_str().unwrap();
                    bumps.insert(n.into(), json!(names.bump(n)));
                }
                json!({"keys": keys, "bumps": bumps})
            }
            "run" => run(&req, &mut names, runner),
            _ => match catch_unwind(AssertUnwindSafe(|| extra(&req))) {
                Ok(Some(v)) => v,
                Ok(None) => json!({"error": "unknown command"}),
                Err(_) => json!({"panic": true}),
            },
        };
        writeln!(out, "{}", resp).unwrap();
        out.flush().unwrap();
    }
}

/// the public wire format of the seven instructions
pub fn entry_runner(req: &Value, _names: &mut Names, infos: &[AccountInfo]) -> ProgramResult {
    let op = s(req, "op");
    let mut data = hashv(&[format!("global:{}", op).as_bytes()]).to_bytes()[..8].to_vec();
    for a in req["args"].as_array().unwrap() {
        data.extend_from_slice(&num(a).to_le_bytes());
    }
    token_bonding_curve::entry(&program_id(), infos, &data)
}
