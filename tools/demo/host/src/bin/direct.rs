//! additionally drives the library interface: curves without an instruction, host fees,
//! deployment constraints and the fixed-point number type
use serde_json::{json, Value};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult};
use spl_math::uint::U256;
use tbc_conformance::{entry_runner, num, program_id, serve, Names};
use token_bonding_curve::{
    constraints::SwapConstraints,
    curve::{
        base::{CurveType, SwapCurve},
        constant_price::ConstantPriceCurve,
        constant_product::ConstantProductCurve,
        fees::Fees,
        linear_price::LinearPriceCurve,
        offset::OffsetCurve,
        stable::StableCurve,
    },
    dfs_precise_number::DFSPreciseNumber,
    processor::Processor,
};

fn nums(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(num).collect()).unwrap_or_default()
}
fn fees(f: &[u64]) -> Fees {
    Fees {
        trade_fee_numerator: f[0],
        trade_fee_denominator: f[1],
        owner_trade_fee_numerator: f[2],
        owner_trade_fee_denominator: f[3],
        owner_withdraw_fee_numerator: f[4],
        owner_withdraw_fee_denominator: f[5],
        host_fee_numerator: f[6],
        host_fee_denominator: f[7],
    }
}
fn kind(k: u64) -> CurveType {
    match k {
        0 => CurveType::ConstantProduct,
        1 => CurveType::ConstantPrice,
        2 => CurveType::Stable,
        3 => CurveType::Offset,
        _ => CurveType::LinearPrice,
    }
}
fn curve(k: u64, p: &[u64]) -> SwapCurve {
    SwapCurve {
        curve_type: kind(k),
        calculator: match k {
            0 => Box::new(ConstantProductCurve {}),
            1 => Box::new(ConstantPriceCurve { token_b_price: p[0] }),
            2 => Box::new(StableCurve { amp: p[0] }),
            3 => Box::new(OffsetCurve { token_b_offset: p[0] }),
            _ => Box::new(LinearPriceCurve {
                slope_numerator: p[0],
                slope_denominator: p[1],
                initial_token_a_price_numerator: p[2],
                initial_token_a_price_denominator: p[3],
            }),
        },
    }
}

fn direct_runner(req: &Value, names: &mut Names, infos: &[AccountInfo]) -> ProgramResult {
    if req["mode"].as_str() != Some("direct") {
        return entry_runner(req, names, infos);
    }
    let pid = program_id();
    let a = nums(&req["args"]);
    match req["op"].as_str().unwrap() {
        "initialize" => {
            let f = fees(&nums(&req["fees"]));
            let c = curve(num(&req["ck"]), &nums(&req["cp"]));
            if req["con"]["on"].as_bool() == Some(true) {
                let cf = fees(&nums(&req["con"]["fees"]));
                let kinds: Vec<CurveType> = nums(&req["con"]["kinds"]).into_iter().map(kind).collect();
                let owner = names.key(req["con"]["owner"].as_str().unwrap()).to_string();
                let con = SwapConstraints { owner_key: &owner, valid_curve_types: &kinds, fees: &cf };
                Processor::process_initialize(&pid, f, c, infos, &Some(con))
            } else {
                Processor::process_initialize(&pid, f, c, infos, &None)
            }
        }
        "swap" => Processor::process_swap(&pid, a[0], a[1], infos),
        "deposit_all_token_types" => {
            Processor::process_deposit_all_token_types(&pid, a[0], a[1], a[2], infos)
        }
        "withdraw_all_token_types" => {
            Processor::process_withdraw_all_token_types(&pid, a[0], a[1], a[2], infos)
        }
        "deposit_single_token_type_exact_amount_in" => {
            Processor::process_deposit_single_token_type_exact_amount_in(&pid, a[0], a[1], infos)
        }
        "withdraw_single_token_type_exact_amount_out" => {
            Processor::process_withdraw_single_token_type_exact_amount_out(&pid, a[0], a[1], infos)
        }
        o => panic!("harness: op {}", o),
    }
}

fn dfs(v: &Value) -> DFSPreciseNumber {
    DFSPreciseNumber { value: U256::from_dec_str(v.as_str().unwrap()).unwrap() }
}
fn o(x: Option<DFSPreciseNumber>) -> Value {
    match x {
        Some(v) => json!(v.value.to_string()),
        None => json!("-1"),
    }
}

fn extra(req: &Value) -> Option<Value> {
    if req["cmd"].as_str() != Some("num") {
        return None;
    }
    let x = || dfs(&req["x"]);
    let y = || dfs(&req["y"]);
    let b = |v: bool| json!(if v { "1" } else { "0" });
    let r = match req["f"].as_str().unwrap() {
        "new" => o(DFSPreciseNumber::new(req["x"].as_str().unwrap().parse::<u128>().unwrap())),
        "to_imprecise" => match x().to_imprecise() {
            Some(v) => json!(v.to_string()),
            None => json!("-1"),
        },
        "floor" => o(x().floor()),
        "ceiling" => o(x().ceiling()),
        "add" => o(x().checked_add(&y())),
        "sub" => o(x().checked_sub(&y())),
        "mul" => o(x().checked_mul(&y())),
        "div" => o(x().checked_div(&y())),
        "usub" => {
            let (v, neg) = x().unsigned_sub(&y());
            return Some(json!({"r": v.value.to_string(), "neg": neg}));
        }
        "sqrt_up" => o(x().sqrt_u64(true)),
        "sqrt_down" => o(x().sqrt_u64(false)),
        "lt" => b(x().less_than(&y())),
        "gt" => b(x().greater_than(&y())),
        "le" => b(x().less_than_or_equal(&y())),
        "almost" => b(x().almost_eq(&y(), U256::from_dec_str(req["z"].as_str().unwrap()).unwrap())),
        "to_spl" => match x().to_spl_precise_number() {
            Some(v) => json!(v.value.to_string()),
            None => json!("-1"),
        },
        "ge" => b(x().greater_than_or_equal(&y())),
        f => panic!("harness: function {}", f),
    };
    Some(json!({ "r": r }))
}

fn main() {
    serve(direct_runner, extra)
}
