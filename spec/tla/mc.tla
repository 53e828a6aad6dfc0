---------------------------------- MODULE mc ----------------------------------

EXTENDS Integers, Sequences, FiniteSets, TLC, Apalache, Variants

(*
  @type: (() => Set(Set(Str)));
*)
SIGNERS == { {"u"}, { "u", "v", "d" }, {"v"}, {"d"}, {} }

(*
  @type: (() => Seq(Int));
*)
LINEARP == <<1, 1, 0, 1>>

(*
  @type: (() => Set(Seq(Int)));
*)
FEECHOICES ==
  { <<0, 0, 0, 0, 0, 0, 0, 0>>,
    <<0, 1, 0, 1, 0, 1, 0, 1>>,
    <<1, 4, 1, 8, 1, 4, 1, 2>>,
    <<1, 1, 0, 1, 0, 1, 0, 1>>,
    <<0, 1, 4, 4, 0, 1, 0, 1>>,
    <<0, 1, 0, 1, 1, 0, 0, 1>>,
    <<0, 1, 0, 1, 0, 1, 2, 1>>,
    <<3, 4, 7, 8, 3, 4, 1, 1>> }

(*
  @type: (() => Set(Seq(Int)));
*)
PARAMS ==
  { <<0, 1, 1, 1>>,
    <<1, 0, 1, 1>>,
    <<1, 1, 0, 1>>,
    <<1, 1, 1, 0>>,
    <<2, 3, 1, 4>>,
    <<1, 8, 0, 1>>,
    <<1, 9, 0, 1>>,
    <<1, 17, 0, 1>> }

VARIABLE
  (*
    @type: Int;
  *)
  left

(*
  @type: (() => Set(Seq(Int)));
*)
FEESETUPS == { <<0, 0, 0, 0, 0, 0, 0, 0>>, <<1, 4, 1, 8, 1, 4, 0, 1>> }

(*
  @type: (() => Set(Int));
*)
AMOUNTS == 0 .. 7

(*
  @type: (() => Set(Str));
*)
NAMES ==
  { "P",
    "Q",
    "F",
    "V",
    "L",
    "pda:P",
    "pda:Q",
    "u",
    "v",
    "d",
    "uA",
    "uB",
    "uP",
    "uQ",
    "vA",
    "sA",
    "sP",
    "aP",
    "bP",
    "aQ",
    "bQ",
    "fP",
    "fQ",
    "fk",
    "zz",
    "lpP",
    "lpQ",
    "mA",
    "TOK",
    "FAKE" }

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
NANO ==
  [one |-> 8,
    rone |-> 3,
    sqbits |-> 6,
    pone |-> 16,
    snap |-> 1,
    m64 |-> 31,
    m128 |-> 1023,
    m256 |-> 8191,
    initial |-> 6]

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, Int, Str) => { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) });
*)
placed(c_1092, i_1092, n_1092) ==
  [
    c_1092 EXCEPT
      !["ac"] =
        LET (*
          @type: ((Seq(Str), Int) => Seq(Str));
        *)
        __QUINT_LAMBDA1(l_1088, j_1088) ==
          Append(l_1088, (IF j_1088 = i_1092
          THEN n_1092
          ELSE c_1092["ac"][(j_1088 + 1)]))
        IN
        ApaFoldSeqLeft(__QUINT_LAMBDA1, <<>>, (LET (*
          @type: ((Int) => Int);
        *)
        __QUINT_LAMBDA0(__quint_var0) == (0 + __quint_var0) - 1
        IN
        MkSeq((Len(c_1092["ac"]) - 0), __QUINT_LAMBDA0)))
  ]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) }) => { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool });
*)
carriedOut(v_112, out_112) ==
  [ok |-> Len(out_112["bad"]) = 0,
    code |-> 0,
    alien |-> FALSE,
    next |-> out_112["next"]]

VARIABLE
  (*
    @type: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) };
  *)
  w

(*
  @type: (() => { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str });
*)
mc_pool_NOCON ==
  [on |-> FALSE,
    owner |-> "",
    kinds |-> <<>>,
    fees |-> <<0, 0, 0, 0, 0, 0, 0, 0>>]

(*
  @type: (() => Int);
*)
mc_curves_PRICE == 1

(*
  @type: (() => Int);
*)
mc_curves_PRODUCT == 0

(*
  @type: (() => Int);
*)
mc_curves_STABLE == 2

(*
  @type: (() => Int);
*)
mc_curves_LINEAR == 30

(*
  @type: (() => Int);
*)
mc_curves_OFFSET == 3

VARIABLE
  (*
    @type: Set({ p: Str, why: Str });
  *)
  flags

(*
  @type: ((Str, Str, Int) => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
open(m_71, o_71, n_71) ==
  [mint |-> m_71,
    own |-> o_71,
    amt |-> n_71,
    dlg |-> "",
    dam |-> 0,
    cls |-> "",
    st |-> 1,
    prog |-> "TOK"]

(*
  @type: ((Str, Int) => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
newMint(auth_89, s_89) ==
  [auth |-> auth_89, sup |-> s_89, frz |-> "", st |-> 1, prog |-> "TOK"]

(*
  @type: (() => Int);
*)
mc_ledger_LENGTH == 324

(*
  @type: (() => Set(Int));
*)
mc_ledger_CURVES == { 0, 1, 2, 3, 30 }

(*
  @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
*)
mc_ledger_NOPOOL ==
  [prog |-> "",
    ver |-> 0,
    ini |-> 0,
    bump |-> 0,
    tp |-> "",
    a |-> "",
    b |-> "",
    lp |-> "",
    am |-> "",
    bm |-> "",
    fee |-> "",
    fees |-> <<0, 0, 0, 0, 0, 0, 0, 0>>,
    ck |-> 0,
    cp |-> <<0, 0, 0, 0>>,
    len |-> 0]

(*
  @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
*)
mc_props_props_ledger_NOPOOL ==
  [prog |-> "",
    ver |-> 0,
    ini |-> 0,
    bump |-> 0,
    tp |-> "",
    a |-> "",
    b |-> "",
    lp |-> "",
    am |-> "",
    bm |-> "",
    fee |-> "",
    fees |-> <<0, 0, 0, 0, 0, 0, 0, 0>>,
    ck |-> 0,
    cp |-> <<0, 0, 0, 0>>,
    len |-> 0]

(*
  @type: ((Bool, Set(Str), Str) => Set({ p: Str, why: Str }));
*)
mc_props_flag(mc_props_bad_11831, mc_props_ps_11831, mc_props_why_11831) ==
  IF mc_props_bad_11831
  THEN {
    [p |-> mc_props_p_11827, why |-> mc_props_why_11831]:
      mc_props_p_11827 \in mc_props_ps_11831
  }
  ELSE {}

(*
  @type: (() => Str);
*)
mc_props_props_pool_SWAP == "swap"

(*
  @type: (() => Int);
*)
mc_props_props_curves_PRICE == 1

(*
  @type: (() => Int);
*)
mc_props_props_curves_STABLE == 2

(*
  @type: (() => Int);
*)
mc_props_props_curves_LINEAR == 30

(*
  @type: (() => Str);
*)
mc_props_props_pool_DEPOSIT == "deposit_all_token_types"

(*
  @type: (() => Str);
*)
mc_props_props_pool_WITHDRAW == "withdraw_all_token_types"

(*
  @type: (() => Str);
*)
mc_props_props_pool_INIT == "initialize"

(*
  @type: (() => Str);
*)
mc_props_props_pool_INITPRICE == "initialize_constant_price"

(*
  @type: (() => Str);
*)
mc_props_props_pool_INITLINEAR == "initialize_linear_price"

(*
  @type: (() => Int);
*)
mc_props_props_pool_eUnknown == 101

(*
  @type: (() => Int);
*)
mc_props_props_pool_eArguments == 102

(*
  @type: (() => Int);
*)
mc_props_props_pool_eAccounts == 3005

(*
  @type: (() => Int);
*)
mc_props_props_pool_eReadOnly == 2000

(*
  @type: (() => Int);
*)
mc_props_props_pool_eUnsigned == 2002

(*
  @type: ((Int) => Int);
*)
mc_props_props_ledger_builtin(mc_props_props_ledger_n_7050) ==
  1000000 + mc_props_props_ledger_n_7050

(*
  @type: (() => Int);
*)
mc_props_props_pool_eFee == 23

(*
  @type: (() => Int);
*)
mc_props_props_pool_eCurveType == 25

(*
  @type: (() => Int);
*)
mc_props_props_pool_eOwner == 2

(*
  @type: (() => Int);
*)
mc_props_props_pool_eFeeFailure == 21

(*
  @type: ((Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool })) => Set(Int));
*)
mc_props_allowedCodes(mc_props_bad_12028) ==
  LET (*
    @type: ((Set(Int), { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }) => Set(Int));
  *)
  __QUINT_LAMBDA2(mc_props_s_12026, mc_props_x_12026) ==
    mc_props_s_12026 \union mc_props_x_12026["codes"]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA2, {}, mc_props_bad_12028)

(*
  @type: (() => Int);
*)
mc_props_props_ledger_ANYCODE == -2

(*
  @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_props_props_ledger_NOMINT ==
  [auth |-> "", sup |-> 0, frz |-> "", st |-> 0, prog |-> ""]

(*
  @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_props_props_ledger_NOTOK ==
  [mint |-> "",
    own |-> "",
    amt |-> 0,
    dlg |-> "",
    dam |-> 0,
    cls |-> "",
    st |-> 0,
    prog |-> ""]

(*
  @type: (() => Int);
*)
mc_props_props_curves_curves_num_NONE == -1

(*
  @type: (() => Seq(Int));
*)
mc_props_props_curves_curves_num_BITSTEPS == <<128, 64, 32, 16, 8, 4, 2, 1>>

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_hi(mc_props_props_curves_curves_num_x_2653, mc_props_props_curves_curves_num_y_2653) ==
  IF mc_props_props_curves_curves_num_x_2653
    > mc_props_props_curves_curves_num_y_2653
  THEN mc_props_props_curves_curves_num_x_2653
  ELSE mc_props_props_curves_curves_num_y_2653

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Bool);
*)
mc_props_hasFees(mc_props_q_11914) ==
  mc_props_q_11914["fees"][(0 + 1)] /= 0
    \/ mc_props_q_11914["fees"][(2 + 1)] /= 0

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Bool);
*)
mc_props_overlapping(mc_props_c_12010) ==
  Cardinality(LET (*
    @type: ((Set(Str), Str) => Set(Str));
  *)
  __QUINT_LAMBDA7(mc_props_s_12002, mc_props_n_12002) ==
    mc_props_s_12002 \union {mc_props_n_12002}
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA7, {}, mc_props_c_12010["ac"]))
    < Len(mc_props_c_12010["ac"])

(*
  @type: (() => Str);
*)
mc_props_props_pool_WITHDRAW1 == "withdraw_single_token_type_exact_amount_out"

(*
  @type: (() => Str);
*)
mc_props_props_pool_DEPOSIT1 == "deposit_single_token_type_exact_amount_in"

(*
  @type: (() => Int);
*)
mc_props_props_ledger_LENGTH == 324

(*
  @type: (() => Set(Int));
*)
mc_props_props_ledger_CURVES == { 0, 1, 2, 3, 30 }

(*
  @type: ((Set(Str), ((Str) => Int)) => Int);
*)
mc_props_sum(mc_props_s_12284, mc_props_f_12284(_)) ==
  LET (*
    @type: ((Int, Str) => Int);
  *)
  __QUINT_LAMBDA8(mc_props_a_12282, mc_props_n_12282) ==
    mc_props_a_12282 + mc_props_f_12284(mc_props_n_12282)
  IN
  ApaFoldSet(__QUINT_LAMBDA8, 0, mc_props_s_12284)

(*
  @type: (({ amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }, Str, Int) => Int);
*)
mc_props_props_ledger_spendError(mc_props_props_ledger_t_7165, mc_props_props_ledger_who_7165,
mc_props_props_ledger_n_7165) ==
  IF mc_props_props_ledger_t_7165["dlg"] = mc_props_props_ledger_who_7165
    /\ mc_props_props_ledger_who_7165 /= ""
  THEN IF mc_props_props_ledger_t_7165["dam"] < mc_props_props_ledger_n_7165
  THEN 1
  ELSE 0
  ELSE IF mc_props_props_ledger_t_7165["own"] /= mc_props_props_ledger_who_7165
  THEN 4
  ELSE 0

(*
  @type: (() => (Str -> Str));
*)
mc_props_props_ledger_AUTHORITIES ==
  SetAsFun({ <<"P", "pda:P">>,
    <<"Q", "pda:Q">>,
    <<"N", "pda:N">>,
    <<"X", "pda:X">> })

(*
  @type: ((Int, Int) => Bool);
*)
mc_props_props_curves_validFraction(mc_props_props_curves_n_4234, mc_props_props_curves_d_4234) ==
  (mc_props_props_curves_n_4234 = 0 /\ mc_props_props_curves_d_4234 = 0)
    \/ mc_props_props_curves_n_4234 < mc_props_props_curves_d_4234

(*
  @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_props_props_pool_pool_ledger_NOMINT ==
  [auth |-> "", sup |-> 0, frz |-> "", st |-> 0, prog |-> ""]

(*
  @type: ((Int, Int, Bool, { dst: Int, src: Int }) => Bool);
*)
mc_props_props_curves_pricePromise(mc_props_props_curves_p_4405, mc_props_props_curves_x_4405,
mc_props_props_curves_aToB_4405, mc_props_props_curves_q_4405) ==
  IF mc_props_props_curves_aToB_4405
  THEN mc_props_props_curves_q_4405["src"] <= mc_props_props_curves_x_4405
    /\ mc_props_props_curves_x_4405 - mc_props_props_curves_q_4405["src"]
      < mc_props_props_curves_p_4405
    /\ mc_props_props_curves_q_4405["src"]
      = mc_props_props_curves_q_4405["dst"] * mc_props_props_curves_p_4405
    /\ mc_props_props_curves_q_4405["dst"] > 0
  ELSE mc_props_props_curves_q_4405["src"] = mc_props_props_curves_x_4405
    /\ mc_props_props_curves_q_4405["dst"]
      = mc_props_props_curves_x_4405 * mc_props_props_curves_p_4405
    /\ mc_props_props_curves_q_4405["dst"] > 0

(*
  @type: (() => Int);
*)
mc_props_props_curves_PRODUCT == 0

(*
  @type: ((Int, Int, Int, { dst: Int, src: Int }) => Bool);
*)
mc_props_props_curves_productPromise(mc_props_props_curves_x_4535, mc_props_props_curves_rs_4535,
mc_props_props_curves_rd_4535, mc_props_props_curves_q_4535) ==
  mc_props_props_curves_q_4535["src"] >= 0
    /\ mc_props_props_curves_q_4535["src"] <= mc_props_props_curves_x_4535
    /\ mc_props_props_curves_q_4535["dst"] > 0
    /\ mc_props_props_curves_q_4535["dst"] < mc_props_props_curves_rd_4535
    /\ (mc_props_props_curves_rs_4535 + mc_props_props_curves_q_4535["src"])
      * (mc_props_props_curves_rd_4535 - mc_props_props_curves_q_4535["dst"])
      >= mc_props_props_curves_rs_4535 * mc_props_props_curves_rd_4535
    /\ (mc_props_props_curves_rs_4535 + mc_props_props_curves_x_4535)
      * ((mc_props_props_curves_rd_4535 - mc_props_props_curves_q_4535["dst"])
        - 1)
      < mc_props_props_curves_rs_4535 * mc_props_props_curves_rd_4535
    /\ (mc_props_props_curves_q_4535["src"] = 0
      \/ ((mc_props_props_curves_rs_4535 + mc_props_props_curves_q_4535["src"])
        - 1)
        * (mc_props_props_curves_rd_4535 - mc_props_props_curves_q_4535["dst"])
        < mc_props_props_curves_rs_4535 * mc_props_props_curves_rd_4535)

(*
  @type: (() => Int);
*)
mc_props_props_curves_OFFSET == 3

(*
  @type: (() => Seq(Int));
*)
mc_props_props_curves_ROUNDS ==
  LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA10(__quint_var2) == (0 + __quint_var2) - 1
  IN
  MkSeq((32 - 0), __QUINT_LAMBDA10)

(*
  @type: ((Seq(Int), Int, Int) => Bool);
*)
mc_props_props_curves_linCovers(mc_props_props_curves_p_5604, mc_props_props_curves_a_5604,
mc_props_props_curves_d_5604) ==
  ((mc_props_props_curves_p_5604[(0 + 1)] * mc_props_props_curves_d_5604)
    * mc_props_props_curves_d_5604)
    * mc_props_props_curves_p_5604[(3 + 1)]
    + ((2 * mc_props_props_curves_p_5604[(1 + 1)])
      * mc_props_props_curves_p_5604[(2 + 1)])
      * mc_props_props_curves_d_5604
    >= (((mc_props_props_curves_a_5604 - 1) * 2)
      * mc_props_props_curves_p_5604[(1 + 1)])
      * mc_props_props_curves_p_5604[(3 + 1)]

(*
  @type: (() => Int);
*)
mc_props_props_num_NONE == -1

(*
  @type: ((Int, Int, Int, Int) => Bool);
*)
mc_props_props_curves_feePromise(mc_props_props_curves_x_4317, mc_props_props_curves_n_4317,
mc_props_props_curves_d_4317, mc_props_props_curves_f_4317) ==
  IF mc_props_props_curves_n_4317 = 0 \/ mc_props_props_curves_x_4317 = 0
  THEN mc_props_props_curves_f_4317 = 0
  ELSE IF mc_props_props_curves_x_4317 * mc_props_props_curves_n_4317
    < mc_props_props_curves_d_4317
  THEN mc_props_props_curves_f_4317 = 1
  ELSE mc_props_props_curves_f_4317 * mc_props_props_curves_d_4317
      <= mc_props_props_curves_x_4317 * mc_props_props_curves_n_4317
    /\ mc_props_props_curves_x_4317 * mc_props_props_curves_n_4317
      < (mc_props_props_curves_f_4317 + 1) * mc_props_props_curves_d_4317

(*
  @type: ((Int, Int, Int, Int, Int, Int, Int) => Bool);
*)
mc_props_props_curves_priceNotDiluted(mc_props_props_curves_p_6611, mc_props_props_curves_a_6611,
mc_props_props_curves_b_6611, mc_props_props_curves_s_6611, mc_props_props_curves_a2_6611,
mc_props_props_curves_b2_6611, mc_props_props_curves_s2_6611) ==
  (mc_props_props_curves_a2_6611
    + mc_props_props_curves_p_6611 * mc_props_props_curves_b2_6611)
    * mc_props_props_curves_s_6611
    >= (mc_props_props_curves_a_6611
      + mc_props_props_curves_p_6611 * mc_props_props_curves_b_6611)
      * mc_props_props_curves_s2_6611

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_num_lo(mc_props_props_num_x_2640, mc_props_props_num_y_2640) ==
  IF mc_props_props_num_x_2640 < mc_props_props_num_y_2640
  THEN mc_props_props_num_x_2640
  ELSE mc_props_props_num_y_2640

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_num_hi(mc_props_props_num_x_2653, mc_props_props_num_y_2653) ==
  IF mc_props_props_num_x_2653 > mc_props_props_num_y_2653
  THEN mc_props_props_num_x_2653
  ELSE mc_props_props_num_y_2653

(*
  @type: ((Int, Int, Int, Int, Int, Int) => Bool);
*)
mc_props_props_curves_productNotDiluted(mc_props_props_curves_a_6579, mc_props_props_curves_b_6579,
mc_props_props_curves_s_6579, mc_props_props_curves_a2_6579, mc_props_props_curves_b2_6579,
mc_props_props_curves_s2_6579) ==
  ((mc_props_props_curves_a2_6579 * mc_props_props_curves_b2_6579)
    * mc_props_props_curves_s_6579)
    * mc_props_props_curves_s_6579
    >= ((mc_props_props_curves_a_6579 * mc_props_props_curves_b_6579)
      * mc_props_props_curves_s2_6579)
      * mc_props_props_curves_s2_6579

(*
  @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_props_props_pool_pool_ledger_NOTOK ==
  [mint |-> "",
    own |-> "",
    amt |-> 0,
    dlg |-> "",
    dam |-> 0,
    cls |-> "",
    st |-> 0,
    prog |-> ""]

(*
  @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_ledger_NOTOK ==
  [mint |-> "",
    own |-> "",
    amt |-> 0,
    dlg |-> "",
    dam |-> 0,
    cls |-> "",
    st |-> 0,
    prog |-> ""]

(*
  @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_ledger_NOMINT == [auth |-> "", sup |-> 0, frz |-> "", st |-> 0, prog |-> ""]

(*
  @type: (() => Str);
*)
mc_pool_INITPRICE == "initialize_constant_price"

(*
  @type: (() => Str);
*)
mc_pool_INITLINEAR == "initialize_linear_price"

(*
  @type: (() => Str);
*)
mc_pool_SWAP == "swap"

(*
  @type: (() => Str);
*)
mc_pool_DEPOSIT == "deposit_all_token_types"

(*
  @type: (() => Str);
*)
mc_pool_WITHDRAW == "withdraw_all_token_types"

(*
  @type: (() => Str);
*)
mc_pool_DEPOSIT1 == "deposit_single_token_type_exact_amount_in"

(*
  @type: (() => Str);
*)
mc_pool_WITHDRAW1 == "withdraw_single_token_type_exact_amount_out"

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool })) => { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_refuse(mc_pool_w_11581, mc_pool_bad_11581) ==
  [bad |-> mc_pool_bad_11581, ops |-> <<>>, next |-> mc_pool_w_11581]

(*
  @type: ((Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool })) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_violated(mc_pool_l_11501) ==
  LET (*
    @type: ((Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  __QUINT_LAMBDA18(__quint_var13, __QUINT_LAMBDA17) ==
    IF LET (*
      @type: (({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }) => Bool);
    *)
    __QUINT_LAMBDA16(mc_pool_x_11499) == mc_pool_x_11499["bad"]
    IN
    __QUINT_LAMBDA16(__QUINT_LAMBDA17)
    THEN Append(__quint_var13, __QUINT_LAMBDA17)
    ELSE __quint_var13
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA18, <<>>, mc_pool_l_11501)

(*
  @type: ((Bool, Set(Str), Set(Int)) => { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool });
*)
mc_pool_when(mc_pool_bad_8043, mc_pool_ps_8043, mc_pool_codes_8043) ==
  [bad |-> mc_pool_bad_8043,
    ps |-> mc_pool_ps_8043,
    codes |-> mc_pool_codes_8043,
    soft |-> FALSE]

(*
  @type: (() => Int);
*)
mc_pool_eUnknown == 101

(*
  @type: (() => Int);
*)
mc_pool_eArguments == 102

(*
  @type: (() => Int);
*)
mc_pool_eAccounts == 3005

(*
  @type: (() => Str);
*)
mc_pool_INIT == "initialize"

(*
  @type: (() => Int);
*)
mc_pool_eUnsigned == 2002

(*
  @type: (() => Int);
*)
mc_pool_eReadOnly == 2000

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_PRICE == 1

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_LINEAR == 30

(*
  @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_pool_pool_ledger_NOTOK ==
  [mint |-> "",
    own |-> "",
    amt |-> 0,
    dlg |-> "",
    dam |-> 0,
    cls |-> "",
    st |-> 0,
    prog |-> ""]

(*
  @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_pool_pool_ledger_NOMINT ==
  [auth |-> "", sup |-> 0, frz |-> "", st |-> 0, prog |-> ""]

(*
  @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
*)
mc_pool_pool_ledger_NOPOOL ==
  [prog |-> "",
    ver |-> 0,
    ini |-> 0,
    bump |-> 0,
    tp |-> "",
    a |-> "",
    b |-> "",
    lp |-> "",
    am |-> "",
    bm |-> "",
    fee |-> "",
    fees |-> <<0, 0, 0, 0, 0, 0, 0, 0>>,
    ck |-> 0,
    cp |-> <<0, 0, 0, 0>>,
    len |-> 0]

(*
  @type: (() => Int);
*)
mc_pool_pool_ledger_LENGTH == 324

(*
  @type: (() => Set(Int));
*)
mc_pool_pool_ledger_CURVES == { 0, 1, 2, 3, 30 }

(*
  @type: (() => Int);
*)
mc_pool_eInUse == 0

(*
  @type: (() => Int);
*)
mc_pool_eIllegalWrite == 900004

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_ledger_builtin(mc_pool_pool_ledger_n_7050) ==
  1000000 + mc_pool_pool_ledger_n_7050

(*
  @type: (() => Int);
*)
mc_pool_pool_ledger_PANIC == -1

(*
  @type: (() => (Str -> Str));
*)
mc_pool_pool_ledger_AUTHORITIES ==
  SetAsFun({ <<"P", "pda:P">>,
    <<"Q", "pda:Q">>,
    <<"N", "pda:N">>,
    <<"X", "pda:X">> })

(*
  @type: (() => Int);
*)
mc_pool_eAuthority == 1

(*
  @type: (() => Int);
*)
mc_pool_eTokenProgram == 24

(*
  @type: (() => Int);
*)
mc_pool_eOwner == 2

(*
  @type: (() => Int);
*)
mc_pool_eOutOwner == 3

(*
  @type: (() => Int);
*)
mc_pool_eRepeated == 15

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_OFFSET == 3

(*
  @type: (() => Int);
*)
mc_pool_eEmpty == 6

(*
  @type: (() => Int);
*)
mc_pool_eSupply == 7

(*
  @type: (() => Int);
*)
mc_pool_eDelegate == 8

(*
  @type: (() => Int);
*)
mc_pool_eClose == 17

(*
  @type: (() => Int);
*)
mc_pool_eFreeze == 18

(*
  @type: (() => Int);
*)
mc_pool_ePoolMint == 11

(*
  @type: (() => Int);
*)
mc_pool_eCurveType == 25

(*
  @type: ((Seq(Int), Seq(Int)) => Bool);
*)
mc_pool_permitted(mc_pool_f_10780, mc_pool_min_10780) ==
  mc_pool_f_10780[(0 + 1)] >= mc_pool_min_10780[(0 + 1)]
    /\ mc_pool_f_10780[(1 + 1)] = mc_pool_min_10780[(1 + 1)]
    /\ mc_pool_f_10780[(2 + 1)] >= mc_pool_min_10780[(2 + 1)]
    /\ mc_pool_f_10780[(3 + 1)] = mc_pool_min_10780[(3 + 1)]
    /\ mc_pool_f_10780[(4 + 1)] >= mc_pool_min_10780[(4 + 1)]
    /\ mc_pool_f_10780[(5 + 1)] = mc_pool_min_10780[(5 + 1)]
    /\ mc_pool_f_10780[(6 + 1)] = mc_pool_min_10780[(6 + 1)]
    /\ mc_pool_f_10780[(7 + 1)] = mc_pool_min_10780[(7 + 1)]

(*
  @type: (() => Int);
*)
mc_pool_eFee == 23

(*
  @type: ((Int, Int) => Bool);
*)
mc_pool_pool_curves_validFraction(mc_pool_pool_curves_n_4234, mc_pool_pool_curves_d_4234) ==
  (mc_pool_pool_curves_n_4234 = 0 /\ mc_pool_pool_curves_d_4234 = 0)
    \/ mc_pool_pool_curves_n_4234 < mc_pool_pool_curves_d_4234

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_NONE == -1

(*
  @type: (() => Int);
*)
mc_pool_eCurve == 26

(*
  @type: (() => Int);
*)
mc_pool_eAccount == 5

(*
  @type: (() => Int);
*)
mc_pool_eMint == 4

(*
  @type: ((Str, Str, Str, Int) => { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str });
*)
mc_pool_pool_ledger_opMint(mc_pool_pool_ledger_m_7106, mc_pool_pool_ledger_dst_7106,
mc_pool_pool_ledger_who_7106, mc_pool_pool_ledger_n_7106) ==
  [kind |-> "mint",
    src |-> "",
    dst |-> mc_pool_pool_ledger_dst_7106,
    mint |-> mc_pool_pool_ledger_m_7106,
    who |-> mc_pool_pool_ledger_who_7106,
    n |-> mc_pool_pool_ledger_n_7106]

(*
  @type: (() => Int);
*)
mc_pool_pool_ledger_ANYCODE == -2

(*
  @type: (({ amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }, Str, Int) => Int);
*)
mc_pool_pool_ledger_spendError(mc_pool_pool_ledger_t_7165, mc_pool_pool_ledger_who_7165,
mc_pool_pool_ledger_n_7165) ==
  IF mc_pool_pool_ledger_t_7165["dlg"] = mc_pool_pool_ledger_who_7165
    /\ mc_pool_pool_ledger_who_7165 /= ""
  THEN IF mc_pool_pool_ledger_t_7165["dam"] < mc_pool_pool_ledger_n_7165
  THEN 1
  ELSE 0
  ELSE IF mc_pool_pool_ledger_t_7165["own"] /= mc_pool_pool_ledger_who_7165
  THEN 4
  ELSE 0

(*
  @type: (({ amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }, Str, Int) => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_pool_pool_ledger_spent(mc_pool_pool_ledger_t_7219, mc_pool_pool_ledger_who_7219,
mc_pool_pool_ledger_n_7219) ==
  IF mc_pool_pool_ledger_t_7219["dlg"] = mc_pool_pool_ledger_who_7219
    /\ mc_pool_pool_ledger_who_7219 /= ""
  THEN [
    [
      [
        mc_pool_pool_ledger_t_7219 EXCEPT
          !["amt"] =
            mc_pool_pool_ledger_t_7219["amt"] - mc_pool_pool_ledger_n_7219
      ] EXCEPT
        !["dam"] =
          mc_pool_pool_ledger_t_7219["dam"] - mc_pool_pool_ledger_n_7219
    ] EXCEPT
      !["dlg"] =
        IF mc_pool_pool_ledger_t_7219["dam"] = mc_pool_pool_ledger_n_7219
        THEN ""
        ELSE mc_pool_pool_ledger_t_7219["dlg"]
  ]
  ELSE [
    mc_pool_pool_ledger_t_7219 EXCEPT
      !["amt"] = mc_pool_pool_ledger_t_7219["amt"] - mc_pool_pool_ledger_n_7219
  ]

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_ledger_paramCount(mc_pool_pool_ledger_ck_7005) ==
  IF mc_pool_pool_ledger_ck_7005 = 0
  THEN 0
  ELSE IF mc_pool_pool_ledger_ck_7005 = 30 THEN 4 ELSE 1

(*
  @type: (() => Int);
*)
mc_pool_eReserve == 10

(*
  @type: (() => Int);
*)
mc_pool_eInput == 9

(*
  @type: (() => Int);
*)
mc_pool_eFeeAccount == 19

(*
  @type: (() => Int);
*)
mc_pool_eUnsupported == 27

(*
  @type: (() => Int);
*)
mc_pool_eZero == 20

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_STABLE == 2

(*
  @type: (() => Seq(Int));
*)
mc_pool_pool_curves_ROUNDS ==
  LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA33(__quint_var36) == (0 + __quint_var36) - 1
  IN
  MkSeq((32 - 0), __QUINT_LAMBDA33)

(*
  @type: (() => Seq(Int));
*)
mc_pool_pool_curves_curves_num_BITSTEPS == <<128, 64, 32, 16, 8, 4, 2, 1>>

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_hi(mc_pool_pool_curves_curves_num_x_2653, mc_pool_pool_curves_curves_num_y_2653) ==
  IF mc_pool_pool_curves_curves_num_x_2653
    > mc_pool_pool_curves_curves_num_y_2653
  THEN mc_pool_pool_curves_curves_num_x_2653
  ELSE mc_pool_pool_curves_curves_num_y_2653

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_ceilDiv(mc_pool_pool_curves_curves_num_x_2766, mc_pool_pool_curves_curves_num_y_2766) ==
  ((mc_pool_pool_curves_curves_num_x_2766
    + mc_pool_pool_curves_curves_num_y_2766)
    - 1)
    \div mc_pool_pool_curves_curves_num_y_2766

(*
  @type: (() => Seq(Int));
*)
mc_pool_pool_curves_curves_num_NEWTON ==
  LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA40(__quint_var38) == (0 + __quint_var38) - 1
  IN
  MkSeq((100 - 0), __QUINT_LAMBDA40)

(*
  @type: ((Bool, Set(Int)) => { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool });
*)
mc_pool_unquoted(mc_pool_bad_8060, mc_pool_codes_8060) ==
  [bad |-> mc_pool_bad_8060,
    ps |-> {},
    codes |-> mc_pool_codes_8060,
    soft |-> TRUE]

(*
  @type: (() => Int);
*)
mc_pool_eCalculation == 13

(*
  @type: (() => Int);
*)
mc_pool_eConversion == 22

(*
  @type: (() => Int);
*)
mc_pool_eFeeFailure == 21

(*
  @type: (() => Int);
*)
mc_pool_eSlippage == 16

(*
  @type: ((Str, Str, Str, Int) => { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str });
*)
mc_pool_pool_ledger_opTransfer(mc_pool_pool_ledger_src_7082, mc_pool_pool_ledger_dst_7082,
mc_pool_pool_ledger_who_7082, mc_pool_pool_ledger_n_7082) ==
  [kind |-> "transfer",
    src |-> mc_pool_pool_ledger_src_7082,
    dst |-> mc_pool_pool_ledger_dst_7082,
    mint |-> "",
    who |-> mc_pool_pool_ledger_who_7082,
    n |-> mc_pool_pool_ledger_n_7082]

(*
  @type: (() => Int);
*)
mc_pool_pool_num_NONE == -1

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_num_lo(mc_pool_pool_num_x_2640, mc_pool_pool_num_y_2640) ==
  IF mc_pool_pool_num_x_2640 < mc_pool_pool_num_y_2640
  THEN mc_pool_pool_num_x_2640
  ELSE mc_pool_pool_num_y_2640

(*
  @type: ((Str, Str, Str, Int) => { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str });
*)
mc_pool_pool_ledger_opBurn(mc_pool_pool_ledger_src_7130, mc_pool_pool_ledger_m_7130,
mc_pool_pool_ledger_who_7130, mc_pool_pool_ledger_n_7130) ==
  [kind |-> "burn",
    src |-> mc_pool_pool_ledger_src_7130,
    dst |-> "",
    mint |-> mc_pool_pool_ledger_m_7130,
    who |-> mc_pool_pool_ledger_who_7130,
    n |-> mc_pool_pool_ledger_n_7130]

(*
  @type: (() => (Str -> Str));
*)
mc_ledger_AUTHORITIES ==
  SetAsFun({ <<"P", "pda:P">>,
    <<"Q", "pda:Q">>,
    <<"N", "pda:N">>,
    <<"X", "pda:X">> })

(*
  @type: ((Int, Int) => Bool);
*)
mc_curves_validFraction(mc_curves_n_4234, mc_curves_d_4234) ==
  (mc_curves_n_4234 = 0 /\ mc_curves_d_4234 = 0)
    \/ mc_curves_n_4234 < mc_curves_d_4234

(*
  @type: (() => Set({ fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }));
*)
CONS ==
  { (mc_pool_NOCON),
    [on |-> TRUE,
      owner |-> "adm",
      kinds |-> <<(mc_curves_PRICE), (mc_curves_PRODUCT)>>,
      fees |-> <<1, 4, 1, 8, 1, 4, 1, 2>>],
    [on |-> TRUE,
      owner |-> "adm",
      kinds |-> <<(mc_curves_STABLE), (mc_curves_LINEAR), (mc_curves_OFFSET)>>,
      fees |-> <<0, 1, 0, 1, 0, 1, 0, 1>>],
    [on |-> TRUE,
      owner |-> "u",
      kinds |-> <<(mc_curves_PRICE)>>,
      fees |-> <<0, 0, 0, 0, 0, 0, 0, 0>>],
    [on |-> TRUE,
      owner |-> "adm",
      kinds |-> <<(mc_curves_PRICE), (mc_curves_LINEAR)>>,
      fees |-> <<0, 4, 1, 8, 1, 4, 1, 2>>] }

(*
  @type: (() => Set(<<Int, Int>>));
*)
KINDSETUPS ==
  { <<(mc_curves_PRODUCT), 0>>,
    <<(mc_curves_PRICE), 1>>,
    <<(mc_curves_PRICE), 2>>,
    <<(mc_curves_PRICE), 3>>,
    <<(mc_curves_OFFSET), 2>>,
    <<(mc_curves_STABLE), 1>>,
    <<(mc_curves_STABLE), 3>> }

(*
  @type: (() => { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) });
*)
NOTHING ==
  [op |-> "",
    mode |-> "",
    ac |-> <<>>,
    sg |-> {},
    ro |-> {},
    ar |-> <<>>,
    fees |-> <<>>,
    ck |-> 0,
    cp |-> <<>>,
    con |-> mc_pool_NOCON]

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Bool);
*)
mc_ledger_readable(mc_ledger_q_6989) ==
  mc_ledger_q_6989["len"] = mc_ledger_LENGTH
    /\ mc_ledger_q_6989["ver"] = 1
    /\ mc_ledger_q_6989["ini"] = 1
    /\ mc_ledger_q_6989["ck"] \in mc_ledger_CURVES

(*
  @type: ((Int) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
*)
stage(k_1423) ==
  [toks |->
      SetAsFun({ <<
          "aN", (open("mA", "pda:N", (IF k_1423 = mc_curves_LINEAR THEN 0 ELSE 4)))
        >>,
        <<"bN", (open("mB", "pda:N", 6))>>,
        <<"fN", (open("lpN", "adm", 0))>>,
        <<"uN", (open("lpN", "u", 0))>>,
        <<"uA", (open("mA", "u", 8))>>,
        <<"uB", (open("mB", "u", 8))>>,
        <<"uC", (open("mC", "u", 8))>> }),
    mints |->
      SetAsFun({ <<
          "mA", (newMint("adm", (IF k_1423 = mc_curves_LINEAR THEN 8 ELSE 12)))
        >>,
        <<"mB", (newMint("adm", 14))>>,
        <<"mC", (newMint("adm", 8))>>,
        <<"lpN", (newMint("pda:N", 0))>> }),
    pools |->
      SetAsFun({<<
        "N", [
          [
            [
              [
                [
                  [
                    [
                      [
                        [ (mc_ledger_NOPOOL) EXCEPT !["prog"] = "PROG" ] EXCEPT
                          !["tp"] = "SYS"
                      ] EXCEPT
                        !["a"] = "SYS"
                    ] EXCEPT
                      !["b"] = "SYS"
                  ] EXCEPT
                    !["lp"] = "SYS"
                ] EXCEPT
                  !["am"] = "SYS"
              ] EXCEPT
                !["bm"] = "SYS"
            ] EXCEPT
              !["fee"] = "SYS"
          ] EXCEPT
            !["len"] = mc_ledger_LENGTH
        ]
      >>})]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
*)
mc_props_props_ledger_pool(mc_props_props_ledger_w_6802, mc_props_props_ledger_n_6802) ==
  IF mc_props_props_ledger_n_6802
    \in DOMAIN (mc_props_props_ledger_w_6802["pools"])
  THEN mc_props_props_ledger_w_6802["pools"][mc_props_props_ledger_n_6802]
  ELSE mc_props_props_ledger_NOPOOL

(*
  @type: ((Int) => Str);
*)
mc_props_curveProp(mc_props_ck_11852) ==
  IF mc_props_ck_11852 = mc_props_props_curves_PRICE
  THEN "P09"
  ELSE IF mc_props_ck_11852 = mc_props_props_curves_STABLE
  THEN "P11"
  ELSE IF mc_props_ck_11852 = mc_props_props_curves_LINEAR THEN "P14" ELSE "P10"

(*
  @type: ((Str) => Bool);
*)
mc_props_props_pool_isInit(mc_props_props_pool_op_8015) ==
  (mc_props_props_pool_op_8015 = mc_props_props_pool_INIT
      \/ mc_props_props_pool_op_8015 = mc_props_props_pool_INITPRICE)
    \/ mc_props_props_pool_op_8015 = mc_props_props_pool_INITLINEAR

(*
  @type: (() => Set(Int));
*)
mc_props_FRAMECODES ==
  { (mc_props_props_pool_eUnknown),
    (mc_props_props_pool_eArguments),
    (mc_props_props_pool_eAccounts),
    (mc_props_props_pool_eReadOnly),
    (mc_props_props_pool_eUnsigned) }

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_props_props_ledger_mint(mc_props_props_ledger_w_6782, mc_props_props_ledger_n_6782) ==
  IF mc_props_props_ledger_n_6782
    \in DOMAIN (mc_props_props_ledger_w_6782["mints"])
  THEN mc_props_props_ledger_w_6782["mints"][mc_props_props_ledger_n_6782]
  ELSE mc_props_props_ledger_NOMINT

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_props_props_ledger_tok(mc_props_props_ledger_w_6762, mc_props_props_ledger_n_6762) ==
  IF mc_props_props_ledger_n_6762
    \in DOMAIN (mc_props_props_ledger_w_6762["toks"])
  THEN mc_props_props_ledger_w_6762["toks"][mc_props_props_ledger_n_6762]
  ELSE mc_props_props_ledger_NOTOK

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_fit(mc_props_props_curves_curves_num_x_2670, mc_props_props_curves_curves_num_limit_2670) ==
  IF mc_props_props_curves_curves_num_x_2670 < 0
    \/ mc_props_props_curves_curves_num_x_2670
      > mc_props_props_curves_curves_num_limit_2670
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_x_2670

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_props_JS == NANO

(*
  @type: ((Int) => Int);
*)
mc_props_props_curves_curves_num_bitLength(mc_props_props_curves_curves_num_x_2855) ==
  IF mc_props_props_curves_curves_num_x_2855 = 0
  THEN 0
  ELSE LET (*
    @type: ((<<Int, Int>>, Int) => <<Int, Int>>);
  *)
  __QUINT_LAMBDA3(mc_props_props_curves_curves_num_acc_2848, mc_props_props_curves_curves_num_s_2848) ==
    IF mc_props_props_curves_curves_num_acc_2848[2]
      >= 2 ^ mc_props_props_curves_curves_num_s_2848
    THEN <<
      (mc_props_props_curves_curves_num_acc_2848[1]
        + mc_props_props_curves_curves_num_s_2848), (mc_props_props_curves_curves_num_acc_2848[
        2
      ]
        \div 2 ^ mc_props_props_curves_curves_num_s_2848)
    >>
    ELSE mc_props_props_curves_curves_num_acc_2848
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA3, <<0, mc_props_props_curves_curves_num_x_2855>>,
  (mc_props_props_curves_curves_num_BITSTEPS))[
    1
  ]
    + 1

(*
  @type: (() => (Str -> { accounts: Int, args: Int, signers: Seq(Int), writable: Seq(Int) }));
*)
mc_props_props_pool_SHAPES ==
  SetAsFun({ <<
      (mc_props_props_pool_SWAP), [accounts |-> 10,
        args |-> 2,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8>>]
    >>,
    <<
      (mc_props_props_pool_DEPOSIT), [accounts |-> 10,
        args |-> 3,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8>>]
    >>,
    <<
      (mc_props_props_pool_WITHDRAW), [accounts |-> 11,
        args |-> 3,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8, 9>>]
    >>,
    <<
      (mc_props_props_pool_DEPOSIT1), [accounts |-> 9,
        args |-> 2,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7>>]
    >>,
    <<
      (mc_props_props_pool_WITHDRAW1), [accounts |-> 10,
        args |-> 2,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8>>]
    >>,
    <<
      (mc_props_props_pool_INITPRICE), [accounts |-> 8,
        args |-> 9,
        signers |-> <<0>>,
        writable |-> <<0, 4, 6>>]
    >>,
    <<
      (mc_props_props_pool_INITLINEAR), [accounts |-> 8,
        args |-> 4,
        signers |-> <<0>>,
        writable |-> <<0, 4, 6>>]
    >> })

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Bool);
*)
mc_props_props_ledger_readable(mc_props_props_ledger_q_6989) ==
  mc_props_props_ledger_q_6989["len"] = mc_props_props_ledger_LENGTH
    /\ mc_props_props_ledger_q_6989["ver"] = 1
    /\ mc_props_props_ledger_q_6989["ini"] = 1
    /\ mc_props_props_ledger_q_6989["ck"] \in mc_props_props_ledger_CURVES

(*
  @type: ((Str) => Str);
*)
mc_props_props_ledger_authorityOf(mc_props_props_ledger_s_7036) ==
  IF mc_props_props_ledger_s_7036 \in DOMAIN mc_props_props_ledger_AUTHORITIES
  THEN (mc_props_props_ledger_AUTHORITIES)[mc_props_props_ledger_s_7036]
  ELSE "?"

(*
  @type: ((Str) => Set(Int));
*)
mc_props_userRoles(mc_props_op_11960) ==
  IF mc_props_op_11960 = mc_props_props_pool_SWAP
  THEN { 3, 6, 10 }
  ELSE IF mc_props_op_11960 = mc_props_props_pool_DEPOSIT
  THEN { 3, 4, 8 }
  ELSE IF mc_props_op_11960 = mc_props_props_pool_WITHDRAW
  THEN { 4, 7, 8 }
  ELSE IF mc_props_op_11960 = mc_props_props_pool_DEPOSIT1
  THEN { 3, 7 }
  ELSE IF mc_props_op_11960 = mc_props_props_pool_WITHDRAW1
  THEN { 4, 7 }
  ELSE {6}

(*
  @type: ((Seq(Int)) => Bool);
*)
mc_props_props_curves_validFees(mc_props_props_curves_fs_4269) ==
  mc_props_props_curves_validFraction(mc_props_props_curves_fs_4269[(0 + 1)], mc_props_props_curves_fs_4269[
      (1 + 1)
    ])
    /\ mc_props_props_curves_validFraction(mc_props_props_curves_fs_4269[
      (2 + 1)
    ], mc_props_props_curves_fs_4269[(3 + 1)])
    /\ mc_props_props_curves_validFraction(mc_props_props_curves_fs_4269[
      (4 + 1)
    ], mc_props_props_curves_fs_4269[(5 + 1)])
    /\ mc_props_props_curves_validFraction(mc_props_props_curves_fs_4269[
      (6 + 1)
    ], mc_props_props_curves_fs_4269[(7 + 1)])

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_props_props_pool_pool_ledger_mint(mc_props_props_pool_pool_ledger_w_6782, mc_props_props_pool_pool_ledger_n_6782) ==
  IF mc_props_props_pool_pool_ledger_n_6782
    \in DOMAIN (mc_props_props_pool_pool_ledger_w_6782["mints"])
  THEN mc_props_props_pool_pool_ledger_w_6782["mints"][
    mc_props_props_pool_pool_ledger_n_6782
  ]
  ELSE mc_props_props_pool_pool_ledger_NOMINT

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_div128(mc_props_props_curves_curves_num_x_2752,
mc_props_props_curves_curves_num_y_2752) ==
  IF mc_props_props_curves_curves_num_x_2752 < 0
    \/ mc_props_props_curves_curves_num_y_2752 <= 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_x_2752
    \div mc_props_props_curves_curves_num_y_2752

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_num_fit(mc_props_props_num_x_2670, mc_props_props_num_limit_2670) ==
  IF mc_props_props_num_x_2670 < 0
    \/ mc_props_props_num_x_2670 > mc_props_props_num_limit_2670
  THEN mc_props_props_num_NONE
  ELSE mc_props_props_num_x_2670

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, Int, Int, Int, Int, Int, Int) => Bool);
*)
mc_props_depositPromise(mc_props_q_13717, mc_props_pt_13717, mc_props_s_13717, mc_props_a_13717,
mc_props_b_13717, mc_props_da_13717, mc_props_db_13717) ==
  IF mc_props_q_13717["ck"] = mc_props_props_curves_PRICE
  THEN ((mc_props_a_13717 + mc_props_da_13717)
      + mc_props_q_13717["cp"][(0 + 1)] * (mc_props_b_13717 + mc_props_db_13717))
      * mc_props_s_13717
      + mc_props_pt_13717
      >= (mc_props_a_13717 + mc_props_q_13717["cp"][(0 + 1)] * mc_props_b_13717)
        * (mc_props_s_13717 + mc_props_pt_13717)
    /\ (2 * (mc_props_da_13717 - 1)) * mc_props_s_13717
      <= mc_props_pt_13717
        * (mc_props_a_13717 + mc_props_q_13717["cp"][(0 + 1)] * mc_props_b_13717)
    /\ ((2 * (mc_props_db_13717 - 1)) * mc_props_q_13717["cp"][(0 + 1)])
      * mc_props_s_13717
      <= mc_props_pt_13717
        * (mc_props_a_13717 + mc_props_q_13717["cp"][(0 + 1)] * mc_props_b_13717)
        + (2 * mc_props_q_13717["cp"][(0 + 1)]) * mc_props_s_13717
  ELSE mc_props_da_13717 * mc_props_s_13717
      >= mc_props_pt_13717 * mc_props_a_13717
    /\ ((mc_props_da_13717 - 1) * mc_props_s_13717
        < mc_props_pt_13717 * mc_props_a_13717
      \/ mc_props_da_13717 = 0)
    /\ mc_props_db_13717 * mc_props_s_13717
      >= mc_props_pt_13717 * mc_props_b_13717
    /\ ((mc_props_db_13717 - 1) * mc_props_s_13717
        < mc_props_pt_13717 * mc_props_b_13717
      \/ mc_props_db_13717 = 0)

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, Int, Int, Int, Int, Int, Int) => Bool);
*)
mc_props_withdrawPromise(mc_props_q_13879, mc_props_pt_13879, mc_props_s_13879, mc_props_a_13879,
mc_props_b_13879, mc_props_da_13879, mc_props_db_13879) ==
  IF mc_props_q_13879["ck"] = mc_props_props_curves_PRICE
  THEN (mc_props_a_13879 - mc_props_da_13879
      + mc_props_q_13879["cp"][(0 + 1)] * (mc_props_b_13879 - mc_props_db_13879))
      * mc_props_s_13879
      >= (mc_props_a_13879 + mc_props_q_13879["cp"][(0 + 1)] * mc_props_b_13879)
        * (mc_props_s_13879 - mc_props_pt_13879)
    /\ (mc_props_da_13879 = mc_props_a_13879
      \/ (2 * (mc_props_da_13879 + 2)) * mc_props_s_13879
        >= mc_props_pt_13879
          * (mc_props_a_13879
            + mc_props_q_13879["cp"][(0 + 1)] * mc_props_b_13879))
    /\ (mc_props_db_13879 = mc_props_b_13879
      \/ ((2 * (mc_props_db_13879 + 2)) * mc_props_q_13879["cp"][(0 + 1)])
        * mc_props_s_13879
        >= mc_props_pt_13879
          * (mc_props_a_13879
            + mc_props_q_13879["cp"][(0 + 1)] * mc_props_b_13879))
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_vb ==
    IF mc_props_q_13879["ck"] = mc_props_props_curves_OFFSET
    THEN mc_props_b_13879 + mc_props_q_13879["cp"][(0 + 1)]
    ELSE mc_props_b_13879
  IN
  mc_props_da_13879 * mc_props_s_13879 <= mc_props_pt_13879 * mc_props_a_13879
    /\ (mc_props_da_13879 = mc_props_a_13879
      \/ (mc_props_da_13879 + 1) * mc_props_s_13879
        > mc_props_pt_13879 * mc_props_a_13879)
    /\ mc_props_db_13879 * mc_props_s_13879 <= mc_props_pt_13879 * mc_props_vb
    /\ (mc_props_db_13879 = mc_props_b_13879
      \/ (mc_props_db_13879 + 1) * mc_props_s_13879
        > mc_props_pt_13879 * mc_props_vb)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_props_props_pool_pool_ledger_tok(mc_props_props_pool_pool_ledger_w_6762, mc_props_props_pool_pool_ledger_n_6762) ==
  IF mc_props_props_pool_pool_ledger_n_6762
    \in DOMAIN (mc_props_props_pool_pool_ledger_w_6762["toks"])
  THEN mc_props_props_pool_pool_ledger_w_6762["toks"][
    mc_props_props_pool_pool_ledger_n_6762
  ]
  ELSE mc_props_props_pool_pool_ledger_NOTOK

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_ledger_tok(mc_ledger_w_6762, mc_ledger_n_6762) ==
  IF mc_ledger_n_6762 \in DOMAIN (mc_ledger_w_6762["toks"])
  THEN mc_ledger_w_6762["toks"][mc_ledger_n_6762]
  ELSE mc_ledger_NOTOK

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_ledger_mint(mc_ledger_w_6782, mc_ledger_n_6782) ==
  IF mc_ledger_n_6782 \in DOMAIN (mc_ledger_w_6782["mints"])
  THEN mc_ledger_w_6782["mints"][mc_ledger_n_6782]
  ELSE mc_ledger_NOMINT

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
*)
mc_ledger_pool(mc_ledger_w_6802, mc_ledger_n_6802) ==
  IF mc_ledger_n_6802 \in DOMAIN (mc_ledger_w_6802["pools"])
  THEN mc_ledger_w_6802["pools"][mc_ledger_n_6802]
  ELSE mc_ledger_NOPOOL

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_pool_PS == NANO

(*
  @type: ((Int, Int, Seq(Int), Int, Int, Int) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
*)
tradeWorld(k_260, p_260, fs_260, a_260, b_260, s_260) ==
  [toks |->
      SetAsFun({ <<"aP", (open("mA", "pda:P", a_260))>>,
        <<"bP", (open("mB", "pda:P", b_260))>>,
        <<"fP", (open("lpP", "adm", 0))>>,
        <<"uA", (open("mA", "u", 6))>>,
        <<"uB", (open("mB", "u", 6))>>,
        <<"uP", (open("lpP", "u", s_260))>> }),
    mints |->
      SetAsFun({ <<"mA", (newMint("adm", (a_260 + 6)))>>,
        <<"mB", (newMint("adm", (b_260 + 6)))>>,
        <<"lpP", (newMint("pda:P", s_260))>> }),
    pools |->
      SetAsFun({<<
        "P", [prog |-> "PROG",
          ver |-> 1,
          ini |-> 1,
          bump |-> 0,
          tp |-> "TOK",
          a |-> "aP",
          b |-> "bP",
          lp |-> "lpP",
          am |-> "mA",
          bm |-> "mB",
          fee |-> "fP",
          fees |-> fs_260,
          ck |-> k_260,
          cp |-> <<p_260, 0, 0, 0>>,
          len |-> mc_ledger_LENGTH]
      >>})]

(*
  @type: (() => Bool);
*)
nothing == w' := w /\ flags' := flags /\ left' := left

(*
  @type: (() => Bool);
*)
sound == flags = {}

(*
  @type: (() => (Str -> { accounts: Int, args: Int, signers: Seq(Int), writable: Seq(Int) }));
*)
mc_pool_SHAPES ==
  SetAsFun({ <<
      (mc_pool_SWAP), [accounts |-> 10,
        args |-> 2,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8>>]
    >>,
    <<
      (mc_pool_DEPOSIT), [accounts |-> 10,
        args |-> 3,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8>>]
    >>,
    <<
      (mc_pool_WITHDRAW), [accounts |-> 11,
        args |-> 3,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8, 9>>]
    >>,
    <<
      (mc_pool_DEPOSIT1), [accounts |-> 9,
        args |-> 2,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7>>]
    >>,
    <<
      (mc_pool_WITHDRAW1), [accounts |-> 10,
        args |-> 2,
        signers |-> <<2>>,
        writable |-> <<3, 4, 5, 6, 7, 8>>]
    >>,
    <<
      (mc_pool_INITPRICE), [accounts |-> 8,
        args |-> 9,
        signers |-> <<0>>,
        writable |-> <<0, 4, 6>>]
    >>,
    <<
      (mc_pool_INITLINEAR), [accounts |-> 8,
        args |-> 4,
        signers |-> <<0>>,
        writable |-> <<0, 4, 6>>]
    >> })

(*
  @type: ((Str) => Bool);
*)
mc_pool_isInit(mc_pool_op_8015) ==
  (mc_pool_op_8015 = mc_pool_INIT \/ mc_pool_op_8015 = mc_pool_INITPRICE)
    \/ mc_pool_op_8015 = mc_pool_INITLINEAR

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => { ck: Int, cp: Seq(Int), fees: Seq(Int) });
*)
mc_pool_offer(mc_pool_c_10714) ==
  IF mc_pool_c_10714["op"] = mc_pool_INITPRICE
  THEN [fees |-> SubSeq(mc_pool_c_10714["ar"], (0 + 1), 8),
    ck |-> mc_pool_pool_curves_PRICE,
    cp |-> <<mc_pool_c_10714["ar"][(8 + 1)], 0, 0, 0>>]
  ELSE IF mc_pool_c_10714["op"] = mc_pool_INITLINEAR
  THEN [fees |-> <<0, 1, 0, 1, 0, 1, 0, 1>>,
    ck |-> mc_pool_pool_curves_LINEAR,
    cp |-> SubSeq(mc_pool_c_10714["ar"], (0 + 1), 4)]
  ELSE [fees |-> mc_pool_c_10714["fees"],
    ck |-> mc_pool_c_10714["ck"],
    cp |-> mc_pool_c_10714["cp"]]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
*)
mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_6762, mc_pool_pool_ledger_n_6762) ==
  IF mc_pool_pool_ledger_n_6762 \in DOMAIN (mc_pool_pool_ledger_w_6762["toks"])
  THEN mc_pool_pool_ledger_w_6762["toks"][mc_pool_pool_ledger_n_6762]
  ELSE mc_pool_pool_ledger_NOTOK

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
*)
mc_pool_pool_ledger_mint(mc_pool_pool_ledger_w_6782, mc_pool_pool_ledger_n_6782) ==
  IF mc_pool_pool_ledger_n_6782 \in DOMAIN (mc_pool_pool_ledger_w_6782["mints"])
  THEN mc_pool_pool_ledger_w_6782["mints"][mc_pool_pool_ledger_n_6782]
  ELSE mc_pool_pool_ledger_NOMINT

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
*)
mc_pool_pool_ledger_pool(mc_pool_pool_ledger_w_6802, mc_pool_pool_ledger_n_6802) ==
  IF mc_pool_pool_ledger_n_6802 \in DOMAIN (mc_pool_pool_ledger_w_6802["pools"])
  THEN mc_pool_pool_ledger_w_6802["pools"][mc_pool_pool_ledger_n_6802]
  ELSE mc_pool_pool_ledger_NOPOOL

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Bool);
*)
mc_pool_pool_ledger_readable(mc_pool_pool_ledger_q_6989) ==
  mc_pool_pool_ledger_q_6989["len"] = mc_pool_pool_ledger_LENGTH
    /\ mc_pool_pool_ledger_q_6989["ver"] = 1
    /\ mc_pool_pool_ledger_q_6989["ini"] = 1
    /\ mc_pool_pool_ledger_q_6989["ck"] \in mc_pool_pool_ledger_CURVES

(*
  @type: ((Str) => Str);
*)
mc_pool_pool_ledger_authorityOf(mc_pool_pool_ledger_s_7036) ==
  IF mc_pool_pool_ledger_s_7036 \in DOMAIN mc_pool_pool_ledger_AUTHORITIES
  THEN (mc_pool_pool_ledger_AUTHORITIES)[mc_pool_pool_ledger_s_7036]
  ELSE "?"

(*
  @type: ((Int, Int, Int) => Bool);
*)
mc_pool_pool_curves_emptySupply(mc_pool_pool_curves_kind_4102, mc_pool_pool_curves_a_4102,
mc_pool_pool_curves_b_4102) ==
  IF mc_pool_pool_curves_kind_4102 = mc_pool_pool_curves_PRICE
    \/ mc_pool_pool_curves_kind_4102 = mc_pool_pool_curves_OFFSET
  THEN mc_pool_pool_curves_a_4102 = 0
  ELSE IF mc_pool_pool_curves_kind_4102 = mc_pool_pool_curves_LINEAR
  THEN mc_pool_pool_curves_b_4102 = 0
  ELSE mc_pool_pool_curves_a_4102 = 0 \/ mc_pool_pool_curves_b_4102 = 0

(*
  @type: ((Int, Int) => Bool);
*)
mc_pool_pool_curves_wrongSupply(mc_pool_pool_curves_kind_4116, mc_pool_pool_curves_a_4116) ==
  mc_pool_pool_curves_kind_4116 = mc_pool_pool_curves_LINEAR
    /\ mc_pool_pool_curves_a_4116 /= 0

(*
  @type: ((Seq(Int)) => Bool);
*)
mc_pool_pool_curves_validFees(mc_pool_pool_curves_fs_4269) ==
  mc_pool_pool_curves_validFraction(mc_pool_pool_curves_fs_4269[(0 + 1)], mc_pool_pool_curves_fs_4269[
      (1 + 1)
    ])
    /\ mc_pool_pool_curves_validFraction(mc_pool_pool_curves_fs_4269[(2 + 1)], mc_pool_pool_curves_fs_4269[
      (3 + 1)
    ])
    /\ mc_pool_pool_curves_validFraction(mc_pool_pool_curves_fs_4269[(4 + 1)], mc_pool_pool_curves_fs_4269[
      (5 + 1)
    ])
    /\ mc_pool_pool_curves_validFraction(mc_pool_pool_curves_fs_4269[(6 + 1)], mc_pool_pool_curves_fs_4269[
      (7 + 1)
    ])

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_fit(mc_pool_pool_curves_curves_num_x_2670, mc_pool_pool_curves_curves_num_limit_2670) ==
  IF mc_pool_pool_curves_curves_num_x_2670 < 0
    \/ mc_pool_pool_curves_curves_num_x_2670
      > mc_pool_pool_curves_curves_num_limit_2670
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_x_2670

(*
  @type: ((Int) => Bool);
*)
mc_pool_pool_curves_allowsDeposits(mc_pool_pool_curves_kind_3990) ==
  mc_pool_pool_curves_kind_3990 /= mc_pool_pool_curves_OFFSET
    /\ mc_pool_pool_curves_kind_3990 /= mc_pool_pool_curves_LINEAR

(*
  @type: ((Int) => Bool);
*)
mc_pool_pool_curves_allowsWithdrawals(mc_pool_pool_curves_kind_3998) ==
  mc_pool_pool_curves_kind_3998 /= mc_pool_pool_curves_LINEAR

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_div128(mc_pool_pool_curves_curves_num_x_2752, mc_pool_pool_curves_curves_num_y_2752) ==
  IF mc_pool_pool_curves_curves_num_x_2752 < 0
    \/ mc_pool_pool_curves_curves_num_y_2752 <= 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_x_2752
    \div mc_pool_pool_curves_curves_num_y_2752

(*
  @type: (() => { dst: Int, src: Int });
*)
mc_pool_pool_curves_NOQUOTE ==
  [src |-> mc_pool_pool_curves_curves_num_NONE,
    dst |-> mc_pool_pool_curves_curves_num_NONE]

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_bitLength(mc_pool_pool_curves_curves_num_x_2855) ==
  IF mc_pool_pool_curves_curves_num_x_2855 = 0
  THEN 0
  ELSE LET (*
    @type: ((<<Int, Int>>, Int) => <<Int, Int>>);
  *)
  __QUINT_LAMBDA36(mc_pool_pool_curves_curves_num_acc_2848, mc_pool_pool_curves_curves_num_s_2848) ==
    IF mc_pool_pool_curves_curves_num_acc_2848[2]
      >= 2 ^ mc_pool_pool_curves_curves_num_s_2848
    THEN <<
      (mc_pool_pool_curves_curves_num_acc_2848[1]
        + mc_pool_pool_curves_curves_num_s_2848), (mc_pool_pool_curves_curves_num_acc_2848[
        2
      ]
        \div 2 ^ mc_pool_pool_curves_curves_num_s_2848)
    >>
    ELSE mc_pool_pool_curves_curves_num_acc_2848
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA36, <<0, mc_pool_pool_curves_curves_num_x_2855>>,
  (mc_pool_pool_curves_curves_num_BITSTEPS))[
    1
  ]
    + 1

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_strictCeilDiv(mc_pool_pool_curves_curves_num_x_2790,
mc_pool_pool_curves_curves_num_y_2790) ==
  IF mc_pool_pool_curves_curves_num_x_2790 < 0
    \/ mc_pool_pool_curves_curves_num_y_2790 <= 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_curves_num_x_2790
    < mc_pool_pool_curves_curves_num_y_2790
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_ceilDiv(mc_pool_pool_curves_curves_num_x_2790,
  mc_pool_pool_curves_curves_num_y_2790)

(*
  @type: (() => { dst: Int, lp: Int, owner: Int, src: Int });
*)
mc_pool_pool_curves_NOTRADE ==
  [src |-> mc_pool_pool_curves_curves_num_NONE,
    dst |-> mc_pool_pool_curves_curves_num_NONE,
    owner |-> mc_pool_pool_curves_curves_num_NONE,
    lp |-> mc_pool_pool_curves_curves_num_NONE]

(*
  @type: (() => Set(Int));
*)
mc_pool_NOQUOTECODES ==
  { (mc_pool_eZero),
    (mc_pool_eCalculation),
    (mc_pool_eConversion),
    (mc_pool_eFeeFailure),
    (mc_pool_pool_ledger_PANIC) }

(*
  @type: (() => { a: Int, b: Int });
*)
mc_pool_pool_curves_NOPAIR ==
  [a |-> mc_pool_pool_curves_curves_num_NONE,
    b |-> mc_pool_pool_curves_curves_num_NONE]

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_num_fit(mc_pool_pool_num_x_2670, mc_pool_pool_num_limit_2670) ==
  IF mc_pool_pool_num_x_2670 < 0
    \/ mc_pool_pool_num_x_2670 > mc_pool_pool_num_limit_2670
  THEN mc_pool_pool_num_NONE
  ELSE mc_pool_pool_num_x_2670

(*
  @type: (() => Set(Int));
*)
mc_curves_KINDS ==
  { (mc_curves_PRODUCT),
    (mc_curves_PRICE),
    (mc_curves_STABLE),
    (mc_curves_OFFSET),
    (mc_curves_LINEAR) }

(*
  @type: ((Str) => Str);
*)
mc_ledger_authorityOf(mc_ledger_s_7036) ==
  IF mc_ledger_s_7036 \in DOMAIN mc_ledger_AUTHORITIES
  THEN (mc_ledger_AUTHORITIES)[mc_ledger_s_7036]
  ELSE "?"

(*
  @type: ((Seq(Int)) => Bool);
*)
mc_curves_validFees(mc_curves_fs_4269) ==
  mc_curves_validFraction(mc_curves_fs_4269[(0 + 1)], mc_curves_fs_4269[(1 + 1)])
    /\ mc_curves_validFraction(mc_curves_fs_4269[(2 + 1)], mc_curves_fs_4269[
      (3 + 1)
    ])
    /\ mc_curves_validFraction(mc_curves_fs_4269[(4 + 1)], mc_curves_fs_4269[
      (5 + 1)
    ])
    /\ mc_curves_validFraction(mc_curves_fs_4269[(6 + 1)], mc_curves_fs_4269[
      (7 + 1)
    ])

(*
  @type: (() => Bool);
*)
recorded ==
  \A n_1302 \in DOMAIN (w["pools"]):
    w["pools"][n_1302]["lp"] \in DOMAIN (w["mints"])
      \/ ~(mc_ledger_readable(w["pools"][n_1302]))

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Set(Str));
*)
mc_props_amountProps(mc_props_c_11894, mc_props_q_11894) ==
  IF mc_props_c_11894["op"] = mc_props_props_pool_SWAP
  THEN {(mc_props_curveProp(mc_props_q_11894["ck"]))}
  ELSE IF mc_props_c_11894["op"] = mc_props_props_pool_DEPOSIT
    \/ mc_props_c_11894["op"] = mc_props_props_pool_WITHDRAW
  THEN {"P20"}
  ELSE IF mc_props_props_pool_isInit(mc_props_c_11894["op"])
  THEN {"P05"}
  ELSE {"P21"}

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Int);
*)
mc_props_props_ledger_sup(mc_props_props_ledger_w_6854, mc_props_props_ledger_n_6854) ==
  (mc_props_props_ledger_mint(mc_props_props_ledger_w_6854, mc_props_props_ledger_n_6854))[
    "sup"
  ]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Int);
*)
mc_props_props_ledger_amt(mc_props_props_ledger_w_6842, mc_props_props_ledger_n_6842) ==
  (mc_props_props_ledger_tok(mc_props_props_ledger_w_6842, mc_props_props_ledger_n_6842))[
    "amt"
  ]

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_props_props_curves_CS == mc_props_JS

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Bool);
*)
mc_props_props_pool_wellFormed(mc_props_props_pool_c_8166) ==
  mc_props_props_pool_c_8166["mode"] = "direct"
    \/ (mc_props_props_pool_c_8166["op"] \in DOMAIN mc_props_props_pool_SHAPES
      /\ (LET (*
        @type: (() => { accounts: Int, args: Int, signers: Seq(Int), writable: Seq(Int) });
      *)
      mc_props_props_pool_sh ==
        (mc_props_props_pool_SHAPES)[mc_props_props_pool_c_8166["op"]]
      IN
      Len(mc_props_props_pool_c_8166["ac"])
          >= (mc_props_props_pool_sh)["accounts"]
        /\ Len(mc_props_props_pool_c_8166["ar"])
          >= (mc_props_props_pool_sh)["args"]))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Set(Str));
*)
mc_props_changed(mc_props_w_12264, mc_props_o_12264) ==
  {
    mc_props_n_12262 \in DOMAIN (mc_props_o_12264["next"]["toks"]):
      mc_props_props_ledger_tok(mc_props_o_12264["next"], mc_props_n_12262)
        /= mc_props_props_ledger_tok(mc_props_w_12264, mc_props_n_12262)
  }

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_props_props_num_NS == mc_props_JS

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Set(Str));
*)
mc_props_userNames(mc_props_c_11987) ==
  {
    mc_props_c_11987["ac"][(mc_props_i_11985 + 1)]:
      mc_props_i_11985 \in
        {
          mc_props_i_11977 \in mc_props_userRoles(mc_props_c_11987["op"]):
            mc_props_i_11977 < Len(mc_props_c_11987["ac"])
        }
  }

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Int);
*)
mc_props_props_pool_pool_ledger_sup(mc_props_props_pool_pool_ledger_w_6854, mc_props_props_pool_pool_ledger_n_6854) ==
  (mc_props_props_pool_pool_ledger_mint(mc_props_props_pool_pool_ledger_w_6854, mc_props_props_pool_pool_ledger_n_6854))[
    "sup"
  ]

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_props_props_pool_PS == mc_props_JS

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str, Str) => Bool);
*)
mc_props_props_pool_ofA(mc_props_props_pool_w_9880, mc_props_props_pool_user_9880,
mc_props_props_pool_a_9880) ==
  (mc_props_props_pool_pool_ledger_tok(mc_props_props_pool_w_9880, mc_props_props_pool_user_9880))[
    "mint"
  ]
    = (mc_props_props_pool_pool_ledger_tok(mc_props_props_pool_w_9880, mc_props_props_pool_a_9880))[
      "mint"
    ]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Int) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
*)
flawed(v_1767, f_1767) ==
  LET (*
    @type: ((Str, { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
  *)
  t(n_1441, x_1441) ==
    [
      v_1767 EXCEPT
        !["toks"] =
          LET (*
            @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
          *)
          __quint_var4 == v_1767["toks"]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var5 == DOMAIN __quint_var4
          IN
          [
            __quint_var6 \in {n_1441} \union __quint_var5 |->
              IF __quint_var6 = n_1441
              THEN x_1441
              ELSE (__quint_var4)[__quint_var6]
          ]
    ]
  IN
  LET (*
    @type: (({ auth: Str, frz: Str, prog: Str, st: Int, sup: Int }) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
  *)
  m(x_1453) ==
    [
      v_1767 EXCEPT
        !["mints"] =
          LET (*
            @type: (() => (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }));
          *)
          __quint_var7 == v_1767["mints"]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var8 == DOMAIN __quint_var7
          IN
          [
            __quint_var9 \in {"lpN"} \union __quint_var8 |->
              IF __quint_var9 = "lpN"
              THEN x_1453
              ELSE (__quint_var7)[__quint_var9]
          ]
    ]
  IN
  LET (*
    @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
  *)
  q(x_1465) ==
    [
      v_1767 EXCEPT
        !["pools"] =
          LET (*
            @type: (() => (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }));
          *)
          __quint_var10 == v_1767["pools"]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var11 == DOMAIN __quint_var10
          IN
          [
            __quint_var12 \in {"N"} \union __quint_var11 |->
              IF __quint_var12 = "N"
              THEN x_1465
              ELSE (__quint_var10)[__quint_var12]
          ]
    ]
  IN
  LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  a == mc_ledger_tok(v_1767, "aN")
  IN
  LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  b == mc_ledger_tok(v_1767, "bN")
  IN
  LET (*
    @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
  *)
  lp == mc_ledger_mint(v_1767, "lpN")
  IN
  LET (*
    @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
  *)
  n == mc_ledger_pool(v_1767, "N")
  IN
  IF f_1767 = 1
  THEN t("aN", [ [ (a) EXCEPT !["dlg"] = "d" ] EXCEPT !["dam"] = 0 ])
  ELSE IF f_1767 = 2
  THEN t("bN", [ [ (b) EXCEPT !["dlg"] = "u" ] EXCEPT !["dam"] = 2 ])
  ELSE IF f_1767 = 3
  THEN t("aN", [ (a) EXCEPT !["cls"] = "u" ])
  ELSE IF f_1767 = 4
  THEN t("bN", [ (b) EXCEPT !["cls"] = "pda:N" ])
  ELSE IF f_1767 = 5
  THEN t("aN", [ (a) EXCEPT !["own"] = "u" ])
  ELSE IF f_1767 = 6
  THEN t("bN", [ (b) EXCEPT !["own"] = "u" ])
  ELSE IF f_1767 = 7
  THEN t("aN", [ (a) EXCEPT !["amt"] = 0 ])
  ELSE IF f_1767 = 8
  THEN t("bN", [ (b) EXCEPT !["amt"] = 0 ])
  ELSE IF f_1767 = 9
  THEN t("aN", [ (a) EXCEPT !["amt"] = 1 ])
  ELSE IF f_1767 = 10
  THEN t("bN", [ (b) EXCEPT !["mint"] = "mA" ])
  ELSE IF f_1767 = 11
  THEN m([ (lp) EXCEPT !["sup"] = 1 ])
  ELSE IF f_1767 = 12
  THEN m([ (lp) EXCEPT !["frz"] = "pda:N" ])
  ELSE IF f_1767 = 13
  THEN m([ (lp) EXCEPT !["auth"] = "adm" ])
  ELSE IF f_1767 = 14
  THEN m([ (lp) EXCEPT !["auth"] = "" ])
  ELSE IF f_1767 = 15
  THEN t("fN", [ (mc_ledger_tok(v_1767, "fN")) EXCEPT !["own"] = "pda:N" ])
  ELSE IF f_1767 = 16
  THEN t("uN", [ (mc_ledger_tok(v_1767, "uN")) EXCEPT !["own"] = "pda:N" ])
  ELSE IF f_1767 = 17
  THEN t("fN", [ (mc_ledger_tok(v_1767, "fN")) EXCEPT !["mint"] = "mA" ])
  ELSE IF f_1767 = 18
  THEN t("uN", [ (mc_ledger_tok(v_1767, "uN")) EXCEPT !["mint"] = "mB" ])
  ELSE IF f_1767 = 19
  THEN q([ (n) EXCEPT !["prog"] = "FAKE" ])
  ELSE IF f_1767 = 20
  THEN q([ (n) EXCEPT !["len"] = 323 ])
  ELSE IF f_1767 = 21
  THEN q([
    [ [ (n) EXCEPT !["ver"] = 1 ] EXCEPT !["ini"] = 1 ] EXCEPT
      !["ck"] = 1
  ])
  ELSE IF f_1767 = 22
  THEN q([ [ (n) EXCEPT !["ver"] = 1 ] EXCEPT !["ini"] = 0 ])
  ELSE IF f_1767 = 23
  THEN t("uN", [ (mc_ledger_tok(v_1767, "uN")) EXCEPT !["st"] = 2 ])
  ELSE IF f_1767 = 24
  THEN t("aN", [ (a) EXCEPT !["st"] = 0 ])
  ELSE IF f_1767 = 25
  THEN t("bN", [ (b) EXCEPT !["prog"] = "FAKE" ])
  ELSE IF f_1767 = 26 THEN m([ (lp) EXCEPT !["prog"] = "FAKE" ]) ELSE v_1767

(*
  @type: ((Str, Str, Int, Seq(Int), Seq(Int), { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }) => { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) });
*)
creation(op_1836, mode_1836, k_1836, p_1836, fs_1836, con_1836) ==
  [
    [
      [
        [
          [
            [
              [
                [
                  [ (NOTHING) EXCEPT !["op"] = op_1836 ] EXCEPT
                    !["mode"] = mode_1836
                ] EXCEPT
                  !["ac"] =
                    <<"N", "pda:N", "aN", "bN", "lpN", "fN", "uN", "TOK">>
              ] EXCEPT
                !["sg"] = { "N", "u" }
            ] EXCEPT
              !["fees"] = fs_1836
          ] EXCEPT
            !["ck"] = k_1836
        ] EXCEPT
          !["cp"] = p_1836
      ] EXCEPT
        !["con"] = con_1836
    ] EXCEPT
      !["ar"] =
        IF op_1836 = mc_pool_INITPRICE
        THEN Append(fs_1836, p_1836[(0 + 1)])
        ELSE IF op_1836 = mc_pool_INITLINEAR THEN p_1836 ELSE <<>>
  ]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Int);
*)
mc_ledger_sup(mc_ledger_w_6854, mc_ledger_n_6854) ==
  (mc_ledger_mint(mc_ledger_w_6854, mc_ledger_n_6854))["sup"]

(*
  @type: (() => Int);
*)
mc_pool_INITIAL == (mc_pool_PS)["initial"]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Int);
*)
mc_ledger_amt(mc_ledger_w_6842, mc_ledger_n_6842) ==
  (mc_ledger_tok(mc_ledger_w_6842, mc_ledger_n_6842))["amt"]

(*
  @type: ((Str, Seq(Str), Seq(Int)) => { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) });
*)
ask(op_531, ac_531, ar_531) ==
  [
    [
      [
        [ [ (NOTHING) EXCEPT !["op"] = op_531 ] EXCEPT !["mode"] = "entry" ] EXCEPT
          !["ac"] = ac_531
      ] EXCEPT
        !["sg"] = {"u"}
    ] EXCEPT
      !["ar"] = ar_531
  ]

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Bool);
*)
mc_pool_wellFormed(mc_pool_c_8166) ==
  mc_pool_c_8166["mode"] = "direct"
    \/ (mc_pool_c_8166["op"] \in DOMAIN mc_pool_SHAPES
      /\ (LET (*
        @type: (() => { accounts: Int, args: Int, signers: Seq(Int), writable: Seq(Int) });
      *)
      mc_pool_sh == (mc_pool_SHAPES)[mc_pool_c_8166["op"]]
      IN
      Len(mc_pool_c_8166["ac"]) >= (mc_pool_sh)["accounts"]
        /\ Len(mc_pool_c_8166["ar"]) >= (mc_pool_sh)["args"]))

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_framing(mc_pool_c_8300) ==
  IF mc_pool_c_8300["mode"] = "direct"
  THEN <<>>
  ELSE IF ~(mc_pool_c_8300["op"] \in DOMAIN mc_pool_SHAPES)
  THEN <<(mc_pool_when(TRUE, {"P27"}, {(mc_pool_eUnknown)}))>>
  ELSE LET (*
    @type: (() => { accounts: Int, args: Int, signers: Seq(Int), writable: Seq(Int) });
  *)
  mc_pool_sh == (mc_pool_SHAPES)[mc_pool_c_8300["op"]]
  IN
  LET (*
    @type: ((Int) => Bool);
  *)
  mc_pool_named(mc_pool_i_8205) == mc_pool_i_8205 < Len(mc_pool_c_8300["ac"])
  IN
  <<
    (mc_pool_when((Len(mc_pool_c_8300["ar"]) < (mc_pool_sh)["args"]), {"P27"}, {(mc_pool_eArguments)})),
    (mc_pool_when((Len(mc_pool_c_8300["ac"]) < (mc_pool_sh)["accounts"]), {"P27"},
    {(mc_pool_eAccounts)})), (mc_pool_when((Len(LET (*
      @type: ((Seq(Int), Int) => Seq(Int));
    *)
    __QUINT_LAMBDA21(__quint_var14, __QUINT_LAMBDA20) ==
      IF LET (*
        @type: ((Int) => Bool);
      *)
      __QUINT_LAMBDA19(mc_pool_i_8250) ==
        mc_pool_named(mc_pool_i_8250)
          /\ ~(mc_pool_c_8300["ac"][(mc_pool_i_8250 + 1)]
            \in mc_pool_c_8300["sg"])
      IN
      __QUINT_LAMBDA19(__QUINT_LAMBDA20)
      THEN Append(__quint_var14, __QUINT_LAMBDA20)
      ELSE __quint_var14
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA21, <<>>, (mc_pool_sh)["signers"]))
      > 0), (IF mc_pool_isInit(mc_pool_c_8300["op"])
    THEN { "P27", "P04" }
    ELSE { "P27", "P01" }), {(mc_pool_eUnsigned)})), (mc_pool_when((Len(LET (*
      @type: ((Seq(Int), Int) => Seq(Int));
    *)
    __QUINT_LAMBDA24(__quint_var15, __QUINT_LAMBDA23) ==
      IF LET (*
        @type: ((Int) => Bool);
      *)
      __QUINT_LAMBDA22(mc_pool_i_8285) ==
        mc_pool_named(mc_pool_i_8285)
          /\ mc_pool_c_8300["ac"][(mc_pool_i_8285 + 1)] \in mc_pool_c_8300["ro"]
      IN
      __QUINT_LAMBDA22(__QUINT_LAMBDA23)
      THEN Append(__quint_var15, __QUINT_LAMBDA23)
      ELSE __quint_var15
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA24, <<>>, (mc_pool_sh)["writable"]))
      > 0), {"P27"}, {(mc_pool_eReadOnly)}))
  >>

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_pool_pool_curves_CS == mc_pool_PS

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Bool);
*)
mc_pool_pool_ledger_isTok(mc_pool_pool_ledger_w_6816, mc_pool_pool_ledger_n_6816) ==
  (mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_6816, mc_pool_pool_ledger_n_6816))[
    "st"
  ]
    /= 0

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Bool);
*)
mc_pool_pool_ledger_isMint(mc_pool_pool_ledger_w_6830, mc_pool_pool_ledger_n_6830) ==
  (mc_pool_pool_ledger_mint(mc_pool_pool_ledger_w_6830, mc_pool_pool_ledger_n_6830))[
    "st"
  ]
    /= 0

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_pool_pool_ledger_LS == mc_pool_PS

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
*)
mc_pool_pool_ledger_opApply(mc_pool_pool_ledger_w_7703, mc_pool_pool_ledger_o_7703) ==
  IF mc_pool_pool_ledger_o_7703["kind"] = "transfer"
  THEN LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_s ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7703, mc_pool_pool_ledger_o_7703[
      "src"
    ])
  IN
  IF mc_pool_pool_ledger_o_7703["src"] = mc_pool_pool_ledger_o_7703["dst"]
  THEN mc_pool_pool_ledger_w_7703
  ELSE LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_d ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7703, mc_pool_pool_ledger_o_7703[
      "dst"
    ])
  IN
  [
    mc_pool_pool_ledger_w_7703 EXCEPT
      !["toks"] =
        LET (*
          @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
        *)
        __quint_var20 ==
          LET (*
            @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
          *)
          __quint_var17 == mc_pool_pool_ledger_w_7703["toks"]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var18 == DOMAIN __quint_var17
          IN
          [
            __quint_var19 \in
              {mc_pool_pool_ledger_o_7703["src"]} \union __quint_var18 |->
              IF __quint_var19 = mc_pool_pool_ledger_o_7703["src"]
              THEN mc_pool_pool_ledger_spent((mc_pool_pool_ledger_s), mc_pool_pool_ledger_o_7703[
                "who"
              ], mc_pool_pool_ledger_o_7703["n"])
              ELSE (__quint_var17)[__quint_var19]
          ]
        IN
        LET (*
          @type: (() => Set(Str));
        *)
        __quint_var21 == DOMAIN __quint_var20
        IN
        [
          __quint_var22 \in
            {mc_pool_pool_ledger_o_7703["dst"]} \union __quint_var21 |->
            IF __quint_var22 = mc_pool_pool_ledger_o_7703["dst"]
            THEN [
              (mc_pool_pool_ledger_d) EXCEPT
                !["amt"] =
                  (mc_pool_pool_ledger_d)["amt"]
                    + mc_pool_pool_ledger_o_7703["n"]
            ]
            ELSE (__quint_var20)[__quint_var22]
        ]
  ]
  ELSE IF mc_pool_pool_ledger_o_7703["kind"] = "mint"
  THEN LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_d ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7703, mc_pool_pool_ledger_o_7703[
      "dst"
    ])
  IN
  LET (*
    @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
  *)
  mc_pool_pool_ledger_m ==
    mc_pool_pool_ledger_mint(mc_pool_pool_ledger_w_7703, mc_pool_pool_ledger_o_7703[
      "mint"
    ])
  IN
  [
    [
      mc_pool_pool_ledger_w_7703 EXCEPT
        !["toks"] =
          LET (*
            @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
          *)
          __quint_var23 == mc_pool_pool_ledger_w_7703["toks"]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var24 == DOMAIN __quint_var23
          IN
          [
            __quint_var25 \in
              {mc_pool_pool_ledger_o_7703["dst"]} \union __quint_var24 |->
              IF __quint_var25 = mc_pool_pool_ledger_o_7703["dst"]
              THEN [
                (mc_pool_pool_ledger_d) EXCEPT
                  !["amt"] =
                    (mc_pool_pool_ledger_d)["amt"]
                      + mc_pool_pool_ledger_o_7703["n"]
              ]
              ELSE (__quint_var23)[__quint_var25]
          ]
    ] EXCEPT
      !["mints"] =
        LET (*
          @type: (() => (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }));
        *)
        __quint_var26 == mc_pool_pool_ledger_w_7703["mints"]
        IN
        LET (*
          @type: (() => Set(Str));
        *)
        __quint_var27 == DOMAIN __quint_var26
        IN
        [
          __quint_var28 \in
            {mc_pool_pool_ledger_o_7703["mint"]} \union __quint_var27 |->
            IF __quint_var28 = mc_pool_pool_ledger_o_7703["mint"]
            THEN [
              (mc_pool_pool_ledger_m) EXCEPT
                !["sup"] =
                  (mc_pool_pool_ledger_m)["sup"]
                    + mc_pool_pool_ledger_o_7703["n"]
            ]
            ELSE (__quint_var26)[__quint_var28]
        ]
  ]
  ELSE LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_s ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7703, mc_pool_pool_ledger_o_7703[
      "src"
    ])
  IN
  LET (*
    @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
  *)
  mc_pool_pool_ledger_m ==
    mc_pool_pool_ledger_mint(mc_pool_pool_ledger_w_7703, mc_pool_pool_ledger_o_7703[
      "mint"
    ])
  IN
  [
    [
      mc_pool_pool_ledger_w_7703 EXCEPT
        !["toks"] =
          LET (*
            @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
          *)
          __quint_var29 == mc_pool_pool_ledger_w_7703["toks"]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var30 == DOMAIN __quint_var29
          IN
          [
            __quint_var31 \in
              {mc_pool_pool_ledger_o_7703["src"]} \union __quint_var30 |->
              IF __quint_var31 = mc_pool_pool_ledger_o_7703["src"]
              THEN mc_pool_pool_ledger_spent((mc_pool_pool_ledger_s), mc_pool_pool_ledger_o_7703[
                "who"
              ], mc_pool_pool_ledger_o_7703["n"])
              ELSE (__quint_var29)[__quint_var31]
          ]
    ] EXCEPT
      !["mints"] =
        LET (*
          @type: (() => (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }));
        *)
        __quint_var32 == mc_pool_pool_ledger_w_7703["mints"]
        IN
        LET (*
          @type: (() => Set(Str));
        *)
        __quint_var33 == DOMAIN __quint_var32
        IN
        [
          __quint_var34 \in
            {mc_pool_pool_ledger_o_7703["mint"]} \union __quint_var33 |->
            IF __quint_var34 = mc_pool_pool_ledger_o_7703["mint"]
            THEN [
              (mc_pool_pool_ledger_m) EXCEPT
                !["sup"] =
                  (mc_pool_pool_ledger_m)["sup"]
                    - mc_pool_pool_ledger_o_7703["n"]
            ]
            ELSE (__quint_var32)[__quint_var34]
        ]
  ]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
*)
mc_pool_record(mc_pool_w_11373, mc_pool_c_11373) ==
  LET (*
    @type: (() => { ck: Int, cp: Seq(Int), fees: Seq(Int) });
  *)
  mc_pool_o == mc_pool_offer(mc_pool_c_11373)
  IN
  [prog |-> "PROG",
    ver |-> 1,
    ini |-> 1,
    bump |-> 0,
    tp |-> mc_pool_c_11373["ac"][(7 + 1)],
    a |-> mc_pool_c_11373["ac"][(2 + 1)],
    b |-> mc_pool_c_11373["ac"][(3 + 1)],
    lp |-> mc_pool_c_11373["ac"][(4 + 1)],
    am |->
      (mc_pool_pool_ledger_tok(mc_pool_w_11373, mc_pool_c_11373["ac"][(2 + 1)]))[
        "mint"
      ],
    bm |->
      (mc_pool_pool_ledger_tok(mc_pool_w_11373, mc_pool_c_11373["ac"][(3 + 1)]))[
        "mint"
      ],
    fee |-> mc_pool_c_11373["ac"][(5 + 1)],
    fees |-> (mc_pool_o)["fees"],
    ck |-> (mc_pool_o)["ck"],
    cp |->
      IF mc_pool_pool_ledger_paramCount((mc_pool_o)["ck"]) = 4
      THEN (mc_pool_o)["cp"]
      ELSE IF mc_pool_pool_ledger_paramCount((mc_pool_o)["ck"]) = 1
      THEN <<(mc_pool_o)["cp"][(0 + 1)], 0, 0, 0>>
      ELSE <<0, 0, 0, 0>>,
    len |-> mc_pool_pool_ledger_LENGTH]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_stateConds(mc_pool_w_8397, mc_pool_n_8397) ==
  <<
    (mc_pool_when(((mc_pool_pool_ledger_pool(mc_pool_w_8397, mc_pool_n_8397))[
      "prog"
    ]
      /= "PROG"), {"P02"}, {(mc_pool_pool_ledger_builtin(7))})), (mc_pool_when(~(mc_pool_pool_ledger_readable((mc_pool_pool_ledger_pool(mc_pool_w_8397,
    mc_pool_n_8397)))), {"P06"}, { (mc_pool_pool_ledger_builtin(4)),
      (mc_pool_pool_ledger_builtin(10)) }))
  >>

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool });
*)
mc_pool_closedToDeposits(mc_pool_q_9012) ==
  mc_pool_when(~(mc_pool_pool_curves_allowsDeposits(mc_pool_q_9012["ck"])), {"P17"},
  {(mc_pool_eUnsupported)})

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, Str, Str, Str, Str, Str, Str) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_bindConds(mc_pool_q_8461, mc_pool_s_8461, mc_pool_auth_8461, mc_pool_a_8461,
mc_pool_b_8461, mc_pool_m_8461, mc_pool_tp_8461) ==
  <<
    (mc_pool_when((mc_pool_auth_8461
      /= mc_pool_pool_ledger_authorityOf(mc_pool_s_8461)), {"P02"}, {(mc_pool_eAuthority)})),
    (mc_pool_when((mc_pool_a_8461 /= mc_pool_q_8461["a"]
      \/ mc_pool_b_8461 /= mc_pool_q_8461["b"]), {"P02"}, {(mc_pool_eReserve)})),
    (mc_pool_when((mc_pool_m_8461 /= mc_pool_q_8461["lp"]), {"P02"}, {(mc_pool_ePoolMint)})),
    (mc_pool_when((mc_pool_tp_8461 /= mc_pool_q_8461["tp"]), {"P02"}, {(mc_pool_eTokenProgram)}))
  >>

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool });
*)
mc_pool_closedToWithdrawals(mc_pool_q_9028) ==
  mc_pool_when(~(mc_pool_pool_curves_allowsWithdrawals(mc_pool_q_9028["ck"])), {"P17"},
  { (mc_pool_eUnsupported), (mc_pool_eZero) })

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str, Str) => Bool);
*)
mc_pool_ofA(mc_pool_w_9880, mc_pool_user_9880, mc_pool_a_9880) ==
  (mc_pool_pool_ledger_tok(mc_pool_w_9880, mc_pool_user_9880))["mint"]
    = (mc_pool_pool_ledger_tok(mc_pool_w_9880, mc_pool_a_9880))["mint"]

(*
  @type: ((Int, Int) => { dst: Int, src: Int });
*)
mc_pool_pool_curves_quote(mc_pool_pool_curves_s_3978, mc_pool_pool_curves_d_3978) ==
  IF mc_pool_pool_curves_s_3978 <= 0 \/ mc_pool_pool_curves_d_3978 <= 0
  THEN mc_pool_pool_curves_NOQUOTE
  ELSE [src |-> mc_pool_pool_curves_s_3978, dst |-> mc_pool_pool_curves_d_3978]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Int);
*)
mc_pool_pool_ledger_amt(mc_pool_pool_ledger_w_6842, mc_pool_pool_ledger_n_6842) ==
  (mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_6842, mc_pool_pool_ledger_n_6842))[
    "amt"
  ]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Int);
*)
mc_pool_pool_ledger_sup(mc_pool_pool_ledger_w_6854, mc_pool_pool_ledger_n_6854) ==
  (mc_pool_pool_ledger_mint(mc_pool_pool_ledger_w_6854, mc_pool_pool_ledger_n_6854))[
    "sup"
  ]

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_pool_pool_num_NS == mc_pool_PS

(*
  @type: ((Int, Int) => { a: Int, b: Int });
*)
mc_pool_pool_curves_pair(mc_pool_pool_curves_a_5810, mc_pool_pool_curves_b_5810) ==
  IF mc_pool_pool_curves_a_5810 < 0 \/ mc_pool_pool_curves_b_5810 < 0
  THEN mc_pool_pool_curves_NOPAIR
  ELSE [a |-> mc_pool_pool_curves_a_5810, b |-> mc_pool_pool_curves_b_5810]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str) => Bool);
*)
wellFounded(v_2271, s_2271) ==
  LET (*
    @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
  *)
  q == mc_ledger_pool(v_2271, s_2271)
  IN
  LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  a == mc_ledger_tok(v_2271, (q)["a"])
  IN
  LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  b == mc_ledger_tok(v_2271, (q)["b"])
  IN
  LET (*
    @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
  *)
  m == mc_ledger_mint(v_2271, (q)["lp"])
  IN
  ~(mc_ledger_readable((q)))
    \/ (q)["a"] = "SYS"
    \/ ((q)["prog"] = "PROG"
      /\ (a)["own"] = mc_ledger_authorityOf(s_2271)
      /\ (b)["own"] = mc_ledger_authorityOf(s_2271)
      /\ (a)["mint"] /= (b)["mint"]
      /\ (a)["mint"] = (q)["am"]
      /\ (b)["mint"] = (q)["bm"]
      /\ (a)["dlg"] = ""
      /\ (b)["dlg"] = ""
      /\ (a)["cls"] = ""
      /\ (b)["cls"] = ""
      /\ (m)["auth"] = mc_ledger_authorityOf(s_2271)
      /\ (m)["frz"] = ""
      /\ (mc_ledger_tok(v_2271, (q)["fee"]))["mint"] = (q)["lp"]
      /\ (mc_ledger_tok(v_2271, (q)["fee"]))["own"]
        /= mc_ledger_authorityOf(s_2271)
      /\ (q)["tp"] = "TOK"
      /\ mc_curves_validFees((q)["fees"]))

(*
  @type: (() => Bool);
*)
initTrade ==
  \E k \in { <<(mc_curves_PRODUCT), 0>>,
    <<(mc_curves_PRICE), 2>>,
    <<(mc_curves_OFFSET), 2>>,
    <<(mc_curves_STABLE), 1>> }:
    \E fs \in FEESETUPS:
      \E a \in { 4, 5 }:
        \E s \in { 0, 4 }:
          w = tradeWorld(k[1], k[2], fs, a, 4, s) /\ flags = {} /\ left = 2

(*
  @type: ((Set(<<Int, Int>>)) => Bool);
*)
initCurve(kinds_415) ==
  \E k \in kinds_415:
    \E fs \in FEESETUPS:
      \E a \in { 1, 4, 5, 9 }:
        \E b \in { 2, 3, 4, 7 }:
          \E s \in { 0, 4, 6 }:
            w := (tradeWorld(k[1], k[2], fs, a, b, s))
              /\ flags := {}
              /\ left := 1

(*
  @type: (() => Bool);
*)
initDeep ==
  \E k \in KINDSETUPS:
    \E fs \in FEESETUPS:
      \E a \in { 1, 4, 5 }:
        \E b \in { 2, 4 }:
          \E s \in { 0, 4, 6 }:
            w := (tradeWorld(k[1], k[2], fs, a, b, s))
              /\ flags := {}
              /\ left := 3

(*
  @type: ((Int, Seq(Int)) => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
*)
rolesWorld(k_891, fs_891) ==
  LET (*
    @type: (() => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
  *)
  base == tradeWorld(k_891, 2, fs_891, 8, 4, 6)
  IN
  [toks |->
      LET (*
        @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
      *)
      __quint_var72 ==
        LET (*
          @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
        *)
        __quint_var69 ==
          LET (*
            @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
          *)
          __quint_var66 ==
            LET (*
              @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
            *)
            __quint_var63 ==
              LET (*
                @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
              *)
              __quint_var60 ==
                LET (*
                  @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
                *)
                __quint_var57 ==
                  LET (*
                    @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
                  *)
                  __quint_var54 ==
                    LET (*
                      @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
                    *)
                    __quint_var51 ==
                      LET (*
                        @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
                      *)
                      __quint_var48 ==
                        LET (*
                          @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
                        *)
                        __quint_var45 ==
                          LET (*
                            @type: (() => (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }));
                          *)
                          __quint_var42 == (base)["toks"]
                          IN
                          LET (*
                            @type: (() => Set(Str));
                          *)
                          __quint_var43 == DOMAIN __quint_var42
                          IN
                          [
                            __quint_var44 \in {"uP"} \union __quint_var43 |->
                              IF __quint_var44 = "uP"
                              THEN open("lpP", "u", 3)
                              ELSE (__quint_var42)[__quint_var44]
                          ]
                        IN
                        LET (*
                          @type: (() => Set(Str));
                        *)
                        __quint_var46 == DOMAIN __quint_var45
                        IN
                        [
                          __quint_var47 \in {"fP"} \union __quint_var46 |->
                            IF __quint_var47 = "fP"
                            THEN open("lpP", "adm", 1)
                            ELSE (__quint_var45)[__quint_var47]
                        ]
                      IN
                      LET (*
                        @type: (() => Set(Str));
                      *)
                      __quint_var49 == DOMAIN __quint_var48
                      IN
                      [
                        __quint_var50 \in {"sP"} \union __quint_var49 |->
                          IF __quint_var50 = "sP"
                          THEN open("lpP", "pda:P", 2)
                          ELSE (__quint_var48)[__quint_var50]
                      ]
                    IN
                    LET (*
                      @type: (() => Set(Str));
                    *)
                    __quint_var52 == DOMAIN __quint_var51
                    IN
                    [
                      __quint_var53 \in {"vA"} \union __quint_var52 |->
                        IF __quint_var53 = "vA"
                        THEN [
                          [ (open("mA", "v", 5)) EXCEPT !["dlg"] = "d" ] EXCEPT
                            !["dam"] = 3
                        ]
                        ELSE (__quint_var51)[__quint_var53]
                    ]
                  IN
                  LET (*
                    @type: (() => Set(Str));
                  *)
                  __quint_var55 == DOMAIN __quint_var54
                  IN
                  [
                    __quint_var56 \in {"sA"} \union __quint_var55 |->
                      IF __quint_var56 = "sA"
                      THEN open("mA", "pda:P", 5)
                      ELSE (__quint_var54)[__quint_var56]
                  ]
                IN
                LET (*
                  @type: (() => Set(Str));
                *)
                __quint_var58 == DOMAIN __quint_var57
                IN
                [
                  __quint_var59 \in {"aQ"} \union __quint_var58 |->
                    IF __quint_var59 = "aQ"
                    THEN open("mA", "pda:Q", 6)
                    ELSE (__quint_var57)[__quint_var59]
                ]
              IN
              LET (*
                @type: (() => Set(Str));
              *)
              __quint_var61 == DOMAIN __quint_var60
              IN
              [
                __quint_var62 \in {"bQ"} \union __quint_var61 |->
                  IF __quint_var62 = "bQ"
                  THEN open("mB", "pda:Q", 6)
                  ELSE (__quint_var60)[__quint_var62]
              ]
            IN
            LET (*
              @type: (() => Set(Str));
            *)
            __quint_var64 == DOMAIN __quint_var63
            IN
            [
              __quint_var65 \in {"fQ"} \union __quint_var64 |->
                IF __quint_var65 = "fQ"
                THEN open("lpQ", "adm", 0)
                ELSE (__quint_var63)[__quint_var65]
            ]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var67 == DOMAIN __quint_var66
          IN
          [
            __quint_var68 \in {"uQ"} \union __quint_var67 |->
              IF __quint_var68 = "uQ"
              THEN open("lpQ", "u", 6)
              ELSE (__quint_var66)[__quint_var68]
          ]
        IN
        LET (*
          @type: (() => Set(Str));
        *)
        __quint_var70 == DOMAIN __quint_var69
        IN
        [
          __quint_var71 \in {"fk"} \union __quint_var70 |->
            IF __quint_var71 = "fk"
            THEN [ (open("mA", "u", 5)) EXCEPT !["prog"] = "FAKE" ]
            ELSE (__quint_var69)[__quint_var71]
        ]
      IN
      LET (*@type: (() => Set(Str)); *) __quint_var73 == DOMAIN __quint_var72 IN
      [
        __quint_var74 \in {"zz"} \union __quint_var73 |->
          IF __quint_var74 = "zz"
          THEN [ (open("mB", "u", 4)) EXCEPT !["st"] = 2 ]
          ELSE (__quint_var72)[__quint_var74]
      ],
    mints |->
      LET (*
        @type: (() => (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }));
      *)
      __quint_var78 ==
        LET (*
          @type: (() => (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }));
        *)
        __quint_var75 == (base)["mints"]
        IN
        LET (*
          @type: (() => Set(Str));
        *)
        __quint_var76 == DOMAIN __quint_var75
        IN
        [
          __quint_var77 \in {"mA"} \union __quint_var76 |->
            IF __quint_var77 = "mA"
            THEN newMint("adm", 35)
            ELSE (__quint_var75)[__quint_var77]
        ]
      IN
      LET (*@type: (() => Set(Str)); *) __quint_var79 == DOMAIN __quint_var78 IN
      [
        __quint_var80 \in {"lpQ"} \union __quint_var79 |->
          IF __quint_var80 = "lpQ"
          THEN newMint("pda:Q", 6)
          ELSE (__quint_var78)[__quint_var80]
      ],
    pools |->
      LET (*
        @type: (() => (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }));
      *)
      __quint_var90 ==
        LET (*
          @type: (() => (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }));
        *)
        __quint_var87 ==
          LET (*
            @type: (() => (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }));
          *)
          __quint_var84 ==
            LET (*
              @type: (() => (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }));
            *)
            __quint_var81 == (base)["pools"]
            IN
            LET (*
              @type: (() => Set(Str));
            *)
            __quint_var82 == DOMAIN __quint_var81
            IN
            [
              __quint_var83 \in {"Q"} \union __quint_var82 |->
                IF __quint_var83 = "Q"
                THEN [
                  [
                    [
                      [ (base)["pools"]["P"] EXCEPT !["a"] = "aQ" ] EXCEPT
                        !["b"] = "bQ"
                    ] EXCEPT
                      !["lp"] = "lpQ"
                  ] EXCEPT
                    !["fee"] = "fQ"
                ]
                ELSE (__quint_var81)[__quint_var83]
            ]
          IN
          LET (*
            @type: (() => Set(Str));
          *)
          __quint_var85 == DOMAIN __quint_var84
          IN
          [
            __quint_var86 \in {"F"} \union __quint_var85 |->
              IF __quint_var86 = "F"
              THEN [ (base)["pools"]["P"] EXCEPT !["prog"] = "FAKE" ]
              ELSE (__quint_var84)[__quint_var86]
          ]
        IN
        LET (*
          @type: (() => Set(Str));
        *)
        __quint_var88 == DOMAIN __quint_var87
        IN
        [
          __quint_var89 \in {"V"} \union __quint_var88 |->
            IF __quint_var89 = "V"
            THEN [ (base)["pools"]["P"] EXCEPT !["ver"] = 2 ]
            ELSE (__quint_var87)[__quint_var89]
        ]
      IN
      LET (*@type: (() => Set(Str)); *) __quint_var91 == DOMAIN __quint_var90 IN
      [
        __quint_var92 \in {"L"} \union __quint_var91 |->
          IF __quint_var92 = "L"
          THEN [ (base)["pools"]["P"] EXCEPT !["len"] = 323 ]
          ELSE (__quint_var90)[__quint_var92]
      ]]

(*
  @type: (() => Bool);
*)
q_inv == sound

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Set({ p: Str, why: Str }));
*)
mc_props_judgeRefusal(mc_props_w_12197, mc_props_c_12197, mc_props_out_12197, mc_props_o_12197) ==
  LET (*
    @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
  *)
  mc_props_q ==
    IF Len(mc_props_c_12197["ac"]) > 0
    THEN mc_props_props_ledger_pool(mc_props_w_12197, mc_props_c_12197["ac"][
      (0 + 1)
    ])
    ELSE mc_props_props_ledger_NOPOOL
  IN
  IF Len(mc_props_out_12197["bad"]) = 0
  THEN (((((mc_props_flag(TRUE, ({"P23"}
    \union mc_props_amountProps(mc_props_c_12197, (mc_props_q))), "refused although every condition holds")
    \union mc_props_flag((mc_props_o_12197["code"] \in mc_props_FRAMECODES), {"P27"},
    "refused a well-formed request"))
    \union mc_props_flag((mc_props_o_12197["code"]
      \in { (mc_props_props_ledger_builtin(4)),
        (mc_props_props_ledger_builtin(10)) }), {"P06"}, "refused to read a recorded pool"))
    \union mc_props_flag((mc_props_props_pool_isInit(mc_props_c_12197["op"])
      /\ mc_props_o_12197["code"] \in {(mc_props_props_pool_eFee)}), { "P26",
      "P25" }, "refused admissible fees"))
    \union mc_props_flag((mc_props_props_pool_isInit(mc_props_c_12197["op"])
      /\ mc_props_o_12197["code"]
        \in { (mc_props_props_pool_eCurveType), (mc_props_props_pool_eOwner) }),
    {"P25"}, "refused an admissible creation"))
    \union mc_props_flag((mc_props_c_12197["op"] = mc_props_props_pool_SWAP
      /\ mc_props_o_12197["code"] = mc_props_props_pool_eFeeFailure), {"P18"}, "could not convert the owner fee"))
    \union mc_props_flag(((mc_props_c_12197["op"] = mc_props_props_pool_SWAP
        /\ (mc_props_q)["ck"] = mc_props_props_curves_LINEAR)
      /\ ~(mc_props_props_pool_isInit(mc_props_c_12197["op"]))), {"P16"}, "refused a trade the reserves can honour")
  ELSE LET (*
    @type: (() => Set(Int));
  *)
  mc_props_codes == mc_props_allowedCodes(mc_props_out_12197["bad"])
  IN
  mc_props_flag(~(mc_props_o_12197["code"] \in mc_props_codes
    \/ mc_props_props_ledger_ANYCODE \in mc_props_codes), { "P23", "P27" }, "refused with an error that names no violated condition")

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_props_props_curves_curves_num_NS == mc_props_props_curves_CS

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }, Str) => Int);
*)
mc_props_gain(mc_props_w_12220, mc_props_o_12220, mc_props_n_12220) ==
  mc_props_props_ledger_amt(mc_props_o_12220["next"], mc_props_n_12220)
    - mc_props_props_ledger_amt(mc_props_w_12220, mc_props_n_12220)

(*
  @type: (() => Int);
*)
mc_props_props_num_M64 == (mc_props_props_num_NS)["m64"]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }, Str) => Int);
*)
mc_props_loss(mc_props_w_12238, mc_props_o_12238, mc_props_n_12238) ==
  mc_props_props_ledger_amt(mc_props_w_12238, mc_props_n_12238)
    - mc_props_props_ledger_amt(mc_props_o_12238["next"], mc_props_n_12238)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Bool);
*)
mc_props_isolated(mc_props_w_12684, mc_props_c_12684, mc_props_o_12684) ==
  \A mc_props_s_12682 \in DOMAIN (mc_props_w_12684["pools"]):
    mc_props_s_12682 = mc_props_c_12684["ac"][(0 + 1)]
      \/ (LET (*
        @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
      *)
      mc_props_q ==
        mc_props_props_ledger_pool(mc_props_w_12684, mc_props_s_12682)
      IN
      LET (*
        @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
      *)
      mc_props_q2 ==
        mc_props_props_ledger_pool(mc_props_o_12684["next"], mc_props_s_12682)
      IN
      ~(mc_props_props_ledger_readable((mc_props_q)))
        \/ (mc_props_props_ledger_tok(mc_props_w_12684, (mc_props_q)["a"]))[
          "own"
        ]
          /= mc_props_props_ledger_authorityOf(mc_props_s_12682)
        \/ (mc_props_props_ledger_tok(mc_props_w_12684, (mc_props_q)["b"]))[
          "own"
        ]
          /= mc_props_props_ledger_authorityOf(mc_props_s_12682)
        \/ (mc_props_q2 = mc_props_q
          /\ mc_props_props_ledger_sup(mc_props_o_12684["next"], (mc_props_q)[
            "lp"
          ])
            = mc_props_props_ledger_sup(mc_props_w_12684, (mc_props_q)["lp"])
          /\ (\A mc_props_n_12675 \in { (mc_props_q)["a"],
            (mc_props_q)["b"],
            (mc_props_q)["fee"] }:
            mc_props_props_ledger_tok(mc_props_o_12684["next"], mc_props_n_12675)
                = mc_props_props_ledger_tok(mc_props_w_12684, mc_props_n_12675)
              \/ mc_props_n_12675 \in mc_props_userNames(mc_props_c_12684))))

(*
  @type: (() => Int);
*)
mc_props_props_pool_INITIAL == (mc_props_props_pool_PS)["initial"]

(*
  @type: (() => Int);
*)
mc_props_props_num_ONE == (mc_props_props_num_NS)["one"]

(*
  @type: (() => Int);
*)
mc_props_props_num_M256 == (mc_props_props_num_NS)["m256"]

(*
  @type: (() => Int);
*)
mc_props_props_num_M128 == (mc_props_props_num_NS)["m128"]

(*
  @type: (() => Int);
*)
mc_props_props_num_SNAP == (mc_props_props_num_NS)["snap"]

(*
  @type: (() => Int);
*)
mc_props_props_num_PONE == (mc_props_props_num_NS)["pone"]

(*
  @type: (() => Bool);
*)
issued ==
  (mc_ledger_readable((mc_ledger_pool(w, "N")))
      /\ (mc_ledger_pool(w, "N"))["a"] /= "SYS")
    /\ left = 1
    => mc_ledger_sup(w, "lpN") = mc_pool_INITIAL
      /\ mc_ledger_amt(w, "uN") = mc_pool_INITIAL

(*
  @type: (() => Set({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }));
*)
BASES ==
  { (ask((mc_pool_SWAP), <<
      "P", "pda:P", "u", "uA", "aP", "bP", "uB", "lpP", "fP", "TOK"
    >>, <<4, 1>>)),
    (ask((mc_pool_SWAP), <<
      "P", "pda:P", "u", "uB", "bP", "aP", "uA", "lpP", "fP", "TOK"
    >>, <<2, 1>>)),
    (ask((mc_pool_SWAP), <<
      "P", "pda:P", "d", "vA", "aP", "bP", "uB", "lpP", "fP", "TOK"
    >>, <<3, 1>>)),
    (ask((mc_pool_SWAP), <<
      "P", "pda:P", "d", "vA", "aP", "bP", "uB", "lpP", "fP", "TOK"
    >>, <<4, 1>>)),
    (ask((mc_pool_DEPOSIT), <<
      "P", "pda:P", "u", "uA", "uB", "aP", "bP", "lpP", "uP", "TOK"
    >>, <<3, 5, 6>>)),
    (ask((mc_pool_WITHDRAW), <<
      "P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "uB", "fP", "TOK"
    >>, <<3, 1, 0>>)),
    (ask((mc_pool_DEPOSIT1), <<
      "P", "pda:P", "u", "uA", "aP", "bP", "lpP", "uP", "TOK"
    >>, <<4, 1>>)),
    (ask((mc_pool_WITHDRAW1), <<
      "P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "fP", "TOK"
    >>, <<1, 3>>)) }

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_pool_pool_curves_curves_num_NS == mc_pool_pool_curves_CS

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str, Str, Set(Str)) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_tokConds(mc_pool_w_8331, mc_pool_n_8331, mc_pool_tp_8331, mc_pool_ps_8331) ==
  <<
    (mc_pool_when((~(mc_pool_pool_ledger_isTok(mc_pool_w_8331, mc_pool_n_8331))
      \/ (mc_pool_pool_ledger_tok(mc_pool_w_8331, mc_pool_n_8331))["prog"]
        /= mc_pool_tp_8331), mc_pool_ps_8331, { (mc_pool_eTokenProgram),
      (mc_pool_eAccount) }))
  >>

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Str, Str, Set(Str)) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_mintConds(mc_pool_w_8362, mc_pool_n_8362, mc_pool_tp_8362, mc_pool_ps_8362) ==
  <<
    (mc_pool_when((~(mc_pool_pool_ledger_isMint(mc_pool_w_8362, mc_pool_n_8362))
      \/ (mc_pool_pool_ledger_mint(mc_pool_w_8362, mc_pool_n_8362))["prog"]
        /= mc_pool_tp_8362), mc_pool_ps_8362, { (mc_pool_eTokenProgram),
      (mc_pool_eMint) }))
  >>

(*
  @type: (() => { initial: Int, m128: Int, m256: Int, m64: Int, one: Int, pone: Int, rone: Int, snap: Int, sqbits: Int });
*)
mc_pool_pool_ledger_ledger_num_NS == mc_pool_pool_ledger_LS

(*
  @type: (() => Int);
*)
mc_pool_pool_num_M64 == (mc_pool_pool_num_NS)["m64"]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Int);
*)
mc_pool_depositPoolTokens(mc_pool_w_9164, mc_pool_c_9164) ==
  IF mc_pool_pool_ledger_sup(mc_pool_w_9164, mc_pool_c_9164["ac"][(7 + 1)]) = 0
  THEN mc_pool_INITIAL
  ELSE mc_pool_c_9164["ar"][(0 + 1)]

(*
  @type: (() => Int);
*)
mc_pool_pool_num_M128 == (mc_pool_pool_num_NS)["m128"]

(*
  @type: (() => Set({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }));
*)
CREATIONS ==
  UNION ({
    {(creation((mc_pool_INITLINEAR), "entry", (mc_curves_LINEAR), p_2086, <<
      0, 1, 0, 1, 0, 1, 0, 1
    >>, (mc_pool_NOCON)))}
      \union UNION ({
        {(creation((mc_pool_INITPRICE), "entry", (mc_curves_PRICE), p_2086, fs_2082,
        (mc_pool_NOCON)))}
          \union UNION ({
            {
              creation((mc_pool_INIT), "direct", k_2078, p_2086, fs_2082, con_2076):
                con_2076 \in CONS
            }:
              k_2078 \in mc_curves_KINDS
          }):
          fs_2082 \in FEECHOICES
      }):
      p_2086 \in PARAMS
  })

(*
  @type: (() => Bool);
*)
initCreation ==
  \E k \in { (mc_curves_PRODUCT), (mc_curves_LINEAR) }:
    \E f \in 0 .. 26:
      \E g \in 0 .. 26:
        (f <= g \/ g = 0)
          /\ w := (flawed((flawed((stage(k)), f)), g))
          /\ flags := {}
          /\ left := 2

(*
  @type: (() => Set({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }));
*)
TRADES ==
  UNION ({
    { (ask((mc_pool_SWAP), <<
        "P", "pda:P", "u", "uA", "aP", "bP", "uB", "lpP", "fP", "TOK"
      >>, <<x_671, 0>>)),
      (ask((mc_pool_SWAP), <<
        "P", "pda:P", "u", "uB", "bP", "aP", "uA", "lpP", "fP", "TOK"
      >>, <<x_671, 2>>)),
      (ask((mc_pool_DEPOSIT), <<
        "P", "pda:P", "u", "uA", "uB", "aP", "bP", "lpP", "uP", "TOK"
      >>, <<x_671, 5, 6>>)),
      (ask((mc_pool_WITHDRAW), <<
        "P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "uB", "fP", "TOK"
      >>, <<x_671, 0, 1>>)),
      (ask((mc_pool_DEPOSIT1), <<
        "P", "pda:P", "u", "uA", "aP", "bP", "lpP", "uP", "TOK"
      >>, <<x_671, 0>>)),
      (ask((mc_pool_DEPOSIT1), <<
        "P", "pda:P", "u", "uB", "aP", "bP", "lpP", "uP", "TOK"
      >>, <<x_671, 1>>)),
      (ask((mc_pool_WITHDRAW1), <<
        "P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "fP", "TOK"
      >>, <<x_671, 4>>)),
      (ask((mc_pool_WITHDRAW1), <<
        "P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uB", "fP", "TOK"
      >>, <<x_671, 6>>)) }:
      x_671 \in AMOUNTS
  })

(*
  @type: (() => Bool);
*)
founded == \A s_2463 \in DOMAIN (w["pools"]): wellFounded(w, s_2463)

(*
  @type: (() => Bool);
*)
initPrice ==
  initCurve({ <<(mc_curves_PRICE), 1>>,
    <<(mc_curves_PRICE), 2>>,
    <<(mc_curves_PRICE), 3>> })

(*
  @type: (() => Bool);
*)
initProduct ==
  initCurve({ <<(mc_curves_PRODUCT), 0>>,
    <<(mc_curves_OFFSET), 1>>,
    <<(mc_curves_OFFSET), 2>>,
    <<(mc_curves_OFFSET), 5>> })

(*
  @type: (() => Bool);
*)
initStable ==
  initCurve({ <<(mc_curves_STABLE), 1>>,
    <<(mc_curves_STABLE), 2>>,
    <<(mc_curves_STABLE), 3>> })

(*
  @type: (() => Bool);
*)
initRoles ==
  \E k \in { (mc_curves_PRODUCT), (mc_curves_PRICE) }:
    \E fs \in FEESETUPS: w := (rolesWorld(k, fs)) /\ flags := {} /\ left := 2

(*
  @type: (() => Bool);
*)
initRolesOnce ==
  \E k \in { (mc_curves_PRODUCT),
    (mc_curves_PRICE),
    (mc_curves_OFFSET),
    (mc_curves_STABLE) }:
    \E fs \in FEESETUPS: w := (rolesWorld(k, fs)) /\ flags := {} /\ left := 1

(*
  @type: (() => Bool);
*)
q_init == initTrade

(*
  @type: (() => Int);
*)
mc_props_props_curves_curves_num_ONE ==
  (mc_props_props_curves_curves_num_NS)["one"]

(*
  @type: (() => Int);
*)
mc_props_props_curves_curves_num_M256 ==
  (mc_props_props_curves_curves_num_NS)["m256"]

(*
  @type: (() => Int);
*)
mc_props_props_curves_curves_num_M128 ==
  (mc_props_props_curves_curves_num_NS)["m128"]

(*
  @type: (() => Int);
*)
mc_props_props_curves_curves_num_SQBITS ==
  (mc_props_props_curves_curves_num_NS)["sqbits"]

(*
  @type: (() => Int);
*)
mc_props_props_curves_curves_num_RONE ==
  (mc_props_props_curves_curves_num_NS)["rone"]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }, Set(Str)) => Bool);
*)
mc_props_accounted(mc_props_w_12477, mc_props_o_12477, mc_props_ch_12477) ==
  ~(mc_props_o_12477["alien"])
    /\ DOMAIN (mc_props_o_12477["next"]["toks"])
      = DOMAIN (mc_props_w_12477["toks"])
    /\ DOMAIN (mc_props_o_12477["next"]["mints"])
      = DOMAIN (mc_props_w_12477["mints"])
    /\ (\A mc_props_m_12353 \in DOMAIN (mc_props_w_12477["mints"]):
      LET (*
        @type: ((Str) => Int);
      *)
      __QUINT_LAMBDA9(mc_props_n_12341) ==
        mc_props_gain(mc_props_w_12477, mc_props_o_12477, mc_props_n_12341)
      IN
      mc_props_sum({
        mc_props_n_12334 \in mc_props_ch_12477:
          (mc_props_props_ledger_tok(mc_props_w_12477, mc_props_n_12334))[
            "mint"
          ]
            = mc_props_m_12353
      }, __QUINT_LAMBDA9)
        = mc_props_props_ledger_sup(mc_props_o_12477["next"], mc_props_m_12353)
          - mc_props_props_ledger_sup(mc_props_w_12477, mc_props_m_12353))
    /\ (\A mc_props_n_12453 \in mc_props_ch_12477:
      LET (*
        @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
      *)
      mc_props_t ==
        mc_props_props_ledger_tok(mc_props_w_12477, mc_props_n_12453)
      IN
      LET (*
        @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
      *)
      mc_props_t2 ==
        mc_props_props_ledger_tok(mc_props_o_12477["next"], mc_props_n_12453)
      IN
      [
          [
            [ (mc_props_t2) EXCEPT !["amt"] = (mc_props_t)["amt"] ] EXCEPT
              !["dlg"] = (mc_props_t)["dlg"]
          ] EXCEPT
            !["dam"] = (mc_props_t)["dam"]
        ]
          = mc_props_t
        /\ ((mc_props_t2)["amt"] >= 0
          /\ (mc_props_t2)["amt"] <= mc_props_props_num_M64)
        /\ (((mc_props_t2)["dlg"] = (mc_props_t)["dlg"]
            /\ (mc_props_t2)["dam"] = (mc_props_t)["dam"])
          \/ (((mc_props_t2)["amt"] < (mc_props_t)["amt"]
              /\ (mc_props_t)["dam"] - (mc_props_t2)["dam"]
                = (mc_props_t)["amt"] - (mc_props_t2)["amt"])
            /\ (mc_props_t2)["dlg"]
              = (IF (mc_props_t2)["dam"] = 0 THEN "" ELSE (mc_props_t)["dlg"]))))
    /\ (\A mc_props_m_12474 \in DOMAIN (mc_props_w_12477["mints"]):
      [
        (mc_props_props_ledger_mint(mc_props_o_12477["next"], mc_props_m_12474))
          EXCEPT
          !["sup"] =
            mc_props_props_ledger_sup(mc_props_w_12477, mc_props_m_12474)
      ]
        = mc_props_props_ledger_mint(mc_props_w_12477, mc_props_m_12474))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }, Set(Str)) => Bool);
*)
mc_props_authorized(mc_props_w_12580, mc_props_c_12580, mc_props_q_12580, mc_props_o_12580,
mc_props_ch_12580) ==
  (\A mc_props_n_12545 \in mc_props_ch_12580:
      mc_props_gain(mc_props_w_12580, mc_props_o_12580, mc_props_n_12545) >= 0
        \/ (mc_props_n_12545
            \in { mc_props_q_12580["a"], mc_props_q_12580["b"] }
          /\ ~(mc_props_props_pool_isInit(mc_props_c_12580["op"])))
        \/ (~(mc_props_props_pool_isInit(mc_props_c_12580["op"]))
          /\ mc_props_c_12580["ac"][(2 + 1)] \in mc_props_c_12580["sg"]
          /\ mc_props_props_ledger_spendError((mc_props_props_ledger_tok(mc_props_w_12580,
          mc_props_n_12545)), mc_props_c_12580["ac"][(2 + 1)], (mc_props_loss(mc_props_w_12580,
          mc_props_o_12580, mc_props_n_12545)))
            = 0))
    /\ (\A mc_props_m_12577 \in DOMAIN (mc_props_w_12580["mints"]):
      mc_props_props_ledger_sup(mc_props_o_12580["next"], mc_props_m_12577)
          = mc_props_props_ledger_sup(mc_props_w_12580, mc_props_m_12577)
        \/ mc_props_m_12577
          = (IF mc_props_props_pool_isInit(mc_props_c_12580["op"])
          THEN mc_props_c_12580["ac"][(4 + 1)]
          ELSE mc_props_q_12580["lp"]))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Bool);
*)
mc_props_limitsKept(mc_props_w_12940, mc_props_c_12940, mc_props_o_12940) ==
  IF mc_props_c_12940["op"] = mc_props_props_pool_SWAP
  THEN mc_props_loss(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (3 + 1)
    ])
      <= mc_props_c_12940["ar"][(0 + 1)]
    /\ mc_props_gain(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (6 + 1)
    ])
      >= mc_props_c_12940["ar"][(1 + 1)]
  ELSE IF mc_props_c_12940["op"] = mc_props_props_pool_DEPOSIT
  THEN mc_props_loss(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (3 + 1)
    ])
      <= mc_props_c_12940["ar"][(1 + 1)]
    /\ mc_props_loss(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (4 + 1)
    ])
      <= mc_props_c_12940["ar"][(2 + 1)]
    /\ (mc_props_gain(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
        (8 + 1)
      ])
        >= mc_props_c_12940["ar"][(0 + 1)]
      \/ mc_props_props_ledger_sup(mc_props_w_12940, mc_props_c_12940["ac"][
        (7 + 1)
      ])
        = 0)
  ELSE IF mc_props_c_12940["op"] = mc_props_props_pool_WITHDRAW
  THEN (mc_props_gain(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
        (7 + 1)
      ])
        >= mc_props_c_12940["ar"][(1 + 1)]
      \/ (mc_props_c_12940["ac"][(7 + 1)] = mc_props_c_12940["ac"][(6 + 1)]
        /\ mc_props_c_12940["ar"][(1 + 1)] = 0))
    /\ (mc_props_gain(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
        (8 + 1)
      ])
        >= mc_props_c_12940["ar"][(2 + 1)]
      \/ (mc_props_c_12940["ac"][(8 + 1)] = mc_props_c_12940["ac"][(5 + 1)]
        /\ mc_props_c_12940["ar"][(2 + 1)] = 0))
    /\ mc_props_loss(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (4 + 1)
    ])
      <= mc_props_c_12940["ar"][(0 + 1)]
  ELSE IF mc_props_c_12940["op"] = mc_props_props_pool_DEPOSIT1
  THEN mc_props_loss(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (3 + 1)
    ])
      <= mc_props_c_12940["ar"][(0 + 1)]
    /\ mc_props_gain(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (7 + 1)
    ])
      >= mc_props_c_12940["ar"][(1 + 1)]
  ELSE mc_props_gain(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (7 + 1)
    ])
      >= mc_props_c_12940["ar"][(0 + 1)]
    /\ mc_props_loss(mc_props_w_12940, mc_props_o_12940, mc_props_c_12940["ac"][
      (4 + 1)
    ])
      <= mc_props_c_12940["ar"][(1 + 1)]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Int);
*)
mc_props_props_pool_depositPoolTokens(mc_props_props_pool_w_9164, mc_props_props_pool_c_9164) ==
  IF mc_props_props_pool_pool_ledger_sup(mc_props_props_pool_w_9164, mc_props_props_pool_c_9164[
    "ac"
  ][
    (7 + 1)
  ])
    = 0
  THEN mc_props_props_pool_INITIAL
  ELSE mc_props_props_pool_c_9164["ar"][(0 + 1)]

(*
  @type: (() => Int);
*)
mc_props_props_curves_curves_num_M64 ==
  (mc_props_props_curves_curves_num_NS)["m64"]

(*
  @type: ((Int) => Int);
*)
mc_props_props_num_dNew(mc_props_props_num_x_2919) ==
  IF mc_props_props_num_x_2919 < 0
  THEN mc_props_props_num_NONE
  ELSE mc_props_props_num_fit((mc_props_props_num_x_2919
    * mc_props_props_num_ONE), (mc_props_props_num_M256))

(*
  @type: ((Int) => Int);
*)
mc_props_props_num_dInt(mc_props_props_num_x_3181) ==
  IF mc_props_props_num_x_3181 < 0
  THEN mc_props_props_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_num_v ==
    mc_props_props_num_fit((mc_props_props_num_x_3181
      + mc_props_props_num_ONE \div 2), (mc_props_props_num_M256))
  IN
  IF mc_props_props_num_v < 0
  THEN mc_props_props_num_NONE
  ELSE mc_props_props_num_fit((mc_props_props_num_v \div mc_props_props_num_ONE),
  (mc_props_props_num_M128))

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_M256 ==
  (mc_pool_pool_curves_curves_num_NS)["m256"]

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_ONE == (mc_pool_pool_curves_curves_num_NS)["one"]

(*
  @type: (() => Int);
*)
mc_pool_pool_ledger_ledger_num_M64 == (mc_pool_pool_ledger_ledger_num_NS)["m64"]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_swapBinding(mc_pool_w_8673, mc_pool_c_8673, mc_pool_q_8673) ==
  LET (*
    @type: (() => Set(Str));
  *)
  mc_pool_inner == { mc_pool_q_8673["a"], mc_pool_q_8673["b"] }
  IN
  ((<<
    (mc_pool_when((mc_pool_c_8673["ac"][(1 + 1)]
      /= mc_pool_pool_ledger_authorityOf(mc_pool_c_8673["ac"][(0 + 1)])), {"P02"},
    {(mc_pool_eAuthority)})), (mc_pool_when(~(mc_pool_c_8673["ac"][(4 + 1)]
      \in mc_pool_inner), {"P02"}, {(mc_pool_eReserve)})), (mc_pool_when(~(mc_pool_c_8673[
      "ac"
    ][
      (5 + 1)
    ]
      \in mc_pool_inner), {"P02"}, {(mc_pool_eReserve)})), (mc_pool_when((mc_pool_c_8673[
      "ac"
    ][
      (4 + 1)
    ]
      = mc_pool_c_8673["ac"][(5 + 1)]), {"P03"}, {(mc_pool_eInput)})), (mc_pool_when((mc_pool_c_8673[
      "ac"
    ][
      (4 + 1)
    ]
      = mc_pool_c_8673["ac"][(3 + 1)]), {"P03"}, {(mc_pool_eInput)})), (mc_pool_when((mc_pool_c_8673[
      "ac"
    ][
      (5 + 1)
    ]
      = mc_pool_c_8673["ac"][(6 + 1)]), {"P03"}, {(mc_pool_eInput)})), (mc_pool_when((mc_pool_c_8673[
      "ac"
    ][
      (7 + 1)
    ]
      /= mc_pool_q_8673["lp"]), {"P02"}, {(mc_pool_ePoolMint)})), (mc_pool_when((mc_pool_c_8673[
      "ac"
    ][
      (8 + 1)
    ]
      /= mc_pool_q_8673["fee"]), {"P02"}, {(mc_pool_eFeeAccount)})), (mc_pool_when((mc_pool_c_8673[
      "ac"
    ][
      (9 + 1)
    ]
      /= mc_pool_q_8673["tp"]), {"P02"}, {(mc_pool_eTokenProgram)}))
  >>
    \o mc_pool_tokConds(mc_pool_w_8673, mc_pool_c_8673["ac"][(4 + 1)], mc_pool_q_8673[
      "tp"
    ], {"P02"}))
    \o mc_pool_tokConds(mc_pool_w_8673, mc_pool_c_8673["ac"][(5 + 1)], mc_pool_q_8673[
      "tp"
    ], {"P02"}))
    \o mc_pool_mintConds(mc_pool_w_8673, mc_pool_c_8673["ac"][(7 + 1)], mc_pool_q_8673[
      "tp"
    ], {"P02"})

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_depositBinding(mc_pool_w_9141, mc_pool_c_9141, mc_pool_q_9141) ==
  (((<<
    (mc_pool_closedToDeposits(mc_pool_q_9141)), (mc_pool_when((mc_pool_c_9141[
        "ac"
      ][
        (3 + 1)
      ]
        = mc_pool_c_9141["ac"][(5 + 1)]
      \/ mc_pool_c_9141["ac"][(4 + 1)] = mc_pool_c_9141["ac"][(6 + 1)]), {"P03"},
    {(mc_pool_eInput)}))
  >>
    \o mc_pool_bindConds(mc_pool_q_9141, mc_pool_c_9141["ac"][(0 + 1)], mc_pool_c_9141[
      "ac"
    ][
      (1 + 1)
    ], mc_pool_c_9141["ac"][(5 + 1)], mc_pool_c_9141["ac"][(6 + 1)], mc_pool_c_9141[
      "ac"
    ][
      (7 + 1)
    ], mc_pool_c_9141["ac"][(9 + 1)]))
    \o mc_pool_tokConds(mc_pool_w_9141, mc_pool_c_9141["ac"][(5 + 1)], mc_pool_q_9141[
      "tp"
    ], {"P02"}))
    \o mc_pool_tokConds(mc_pool_w_9141, mc_pool_c_9141["ac"][(6 + 1)], mc_pool_q_9141[
      "tp"
    ], {"P02"}))
    \o mc_pool_mintConds(mc_pool_w_9141, mc_pool_c_9141["ac"][(7 + 1)], mc_pool_q_9141[
      "tp"
    ], {"P02"})

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_withdrawBinding(mc_pool_w_9494, mc_pool_c_9494, mc_pool_q_9494) ==
  (((<<
    (mc_pool_closedToWithdrawals(mc_pool_q_9494)), (mc_pool_when((mc_pool_c_9494[
        "ac"
      ][
        (7 + 1)
      ]
        = mc_pool_c_9494["ac"][(5 + 1)]
      \/ mc_pool_c_9494["ac"][(8 + 1)] = mc_pool_c_9494["ac"][(6 + 1)]), {"P03"},
    {(mc_pool_eInput)})), (mc_pool_when((mc_pool_c_9494["ac"][(9 + 1)]
      /= mc_pool_q_9494["fee"]), {"P02"}, {(mc_pool_eFeeAccount)}))
  >>
    \o mc_pool_bindConds(mc_pool_q_9494, mc_pool_c_9494["ac"][(0 + 1)], mc_pool_c_9494[
      "ac"
    ][
      (1 + 1)
    ], mc_pool_c_9494["ac"][(5 + 1)], mc_pool_c_9494["ac"][(6 + 1)], mc_pool_c_9494[
      "ac"
    ][
      (3 + 1)
    ], mc_pool_c_9494["ac"][(10 + 1)]))
    \o mc_pool_tokConds(mc_pool_w_9494, mc_pool_c_9494["ac"][(5 + 1)], mc_pool_q_9494[
      "tp"
    ], {"P02"}))
    \o mc_pool_tokConds(mc_pool_w_9494, mc_pool_c_9494["ac"][(6 + 1)], mc_pool_q_9494[
      "tp"
    ], {"P02"}))
    \o mc_pool_mintConds(mc_pool_w_9494, mc_pool_c_9494["ac"][(3 + 1)], mc_pool_q_9494[
      "tp"
    ], {"P02"})

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_deposit1Binding(mc_pool_w_10042, mc_pool_c_10042, mc_pool_q_10042) ==
  LET (*
    @type: (() => Bool);
  *)
  mc_pool_toA ==
    mc_pool_ofA(mc_pool_w_10042, mc_pool_c_10042["ac"][(3 + 1)], mc_pool_c_10042[
      "ac"
    ][
      (4 + 1)
    ])
  IN
  ((((<<
    (mc_pool_closedToDeposits(mc_pool_q_10042)), (mc_pool_when((~mc_pool_toA
      /\ (mc_pool_pool_ledger_tok(mc_pool_w_10042, mc_pool_c_10042["ac"][
        (3 + 1)
      ]))[
        "mint"
      ]
        /= (mc_pool_pool_ledger_tok(mc_pool_w_10042, mc_pool_c_10042["ac"][
          (5 + 1)
        ]))[
          "mint"
        ]), {"P21"}, {(mc_pool_eReserve)})), (mc_pool_when((mc_pool_c_10042[
      "ac"
    ][
      (3 + 1)
    ]
      = (IF mc_pool_toA
      THEN mc_pool_c_10042["ac"][(4 + 1)]
      ELSE mc_pool_c_10042["ac"][(5 + 1)])), {"P03"}, {(mc_pool_eInput)}))
  >>
    \o mc_pool_bindConds(mc_pool_q_10042, mc_pool_c_10042["ac"][(0 + 1)], mc_pool_c_10042[
      "ac"
    ][
      (1 + 1)
    ], mc_pool_c_10042["ac"][(4 + 1)], mc_pool_c_10042["ac"][(5 + 1)], mc_pool_c_10042[
      "ac"
    ][
      (6 + 1)
    ], mc_pool_c_10042["ac"][(8 + 1)]))
    \o mc_pool_tokConds(mc_pool_w_10042, mc_pool_c_10042["ac"][(3 + 1)], mc_pool_q_10042[
      "tp"
    ], {"P08"}))
    \o mc_pool_tokConds(mc_pool_w_10042, mc_pool_c_10042["ac"][(4 + 1)], mc_pool_q_10042[
      "tp"
    ], {"P02"}))
    \o mc_pool_tokConds(mc_pool_w_10042, mc_pool_c_10042["ac"][(5 + 1)], mc_pool_q_10042[
      "tp"
    ], {"P02"}))
    \o mc_pool_mintConds(mc_pool_w_10042, mc_pool_c_10042["ac"][(6 + 1)], mc_pool_q_10042[
      "tp"
    ], {"P02"})

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_withdraw1Binding(mc_pool_w_10410, mc_pool_c_10410, mc_pool_q_10410) ==
  LET (*
    @type: (() => Bool);
  *)
  mc_pool_fromA ==
    mc_pool_ofA(mc_pool_w_10410, mc_pool_c_10410["ac"][(7 + 1)], mc_pool_c_10410[
      "ac"
    ][
      (5 + 1)
    ])
  IN
  ((((<<
    (mc_pool_closedToWithdrawals(mc_pool_q_10410)), (mc_pool_when((~mc_pool_fromA
      /\ (mc_pool_pool_ledger_tok(mc_pool_w_10410, mc_pool_c_10410["ac"][
        (7 + 1)
      ]))[
        "mint"
      ]
        /= (mc_pool_pool_ledger_tok(mc_pool_w_10410, mc_pool_c_10410["ac"][
          (6 + 1)
        ]))[
          "mint"
        ]), {"P21"}, {(mc_pool_eReserve)})), (mc_pool_when((mc_pool_c_10410[
      "ac"
    ][
      (7 + 1)
    ]
      = (IF mc_pool_fromA
      THEN mc_pool_c_10410["ac"][(5 + 1)]
      ELSE mc_pool_c_10410["ac"][(6 + 1)])), {"P03"}, {(mc_pool_eInput)})), (mc_pool_when((mc_pool_c_10410[
      "ac"
    ][
      (8 + 1)
    ]
      /= mc_pool_q_10410["fee"]), {"P02"}, {(mc_pool_eFeeAccount)}))
  >>
    \o mc_pool_bindConds(mc_pool_q_10410, mc_pool_c_10410["ac"][(0 + 1)], mc_pool_c_10410[
      "ac"
    ][
      (1 + 1)
    ], mc_pool_c_10410["ac"][(5 + 1)], mc_pool_c_10410["ac"][(6 + 1)], mc_pool_c_10410[
      "ac"
    ][
      (3 + 1)
    ], mc_pool_c_10410["ac"][(9 + 1)]))
    \o mc_pool_tokConds(mc_pool_w_10410, mc_pool_c_10410["ac"][(7 + 1)], mc_pool_q_10410[
      "tp"
    ], {"P08"}))
    \o mc_pool_tokConds(mc_pool_w_10410, mc_pool_c_10410["ac"][(5 + 1)], mc_pool_q_10410[
      "tp"
    ], {"P02"}))
    \o mc_pool_tokConds(mc_pool_w_10410, mc_pool_c_10410["ac"][(6 + 1)], mc_pool_q_10410[
      "tp"
    ], {"P02"}))
    \o mc_pool_mintConds(mc_pool_w_10410, mc_pool_c_10410["ac"][(3 + 1)], mc_pool_q_10410[
      "tp"
    ], {"P02"})

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_M128 ==
  (mc_pool_pool_curves_curves_num_NS)["m128"]

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_M64 == (mc_pool_pool_curves_curves_num_NS)["m64"]

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_SQBITS ==
  (mc_pool_pool_curves_curves_num_NS)["sqbits"]

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_RONE ==
  (mc_pool_pool_curves_curves_num_NS)["rone"]

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_PONE ==
  (mc_pool_pool_curves_curves_num_NS)["pone"]

(*
  @type: (() => Int);
*)
mc_pool_pool_curves_curves_num_SNAP ==
  (mc_pool_pool_curves_curves_num_NS)["snap"]

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_num_sub128(mc_pool_pool_num_x_2712, mc_pool_pool_num_y_2712) ==
  IF mc_pool_pool_num_x_2712 < 0 \/ mc_pool_pool_num_y_2712 < 0
  THEN mc_pool_pool_num_NONE
  ELSE mc_pool_pool_num_fit((mc_pool_pool_num_x_2712 - mc_pool_pool_num_y_2712),
  (mc_pool_pool_num_M128))

(*
  @type: ((Int) => Int);
*)
mc_props_props_curves_curves_num_dInt(mc_props_props_curves_curves_num_x_3181) ==
  IF mc_props_props_curves_curves_num_x_3181 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_v ==
    mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_3181
      + mc_props_props_curves_curves_num_ONE \div 2), (mc_props_props_curves_curves_num_M256))
  IN
  IF mc_props_props_curves_curves_num_v < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_v
    \div mc_props_props_curves_curves_num_ONE), (mc_props_props_curves_curves_num_M128))

(*
  @type: ((Int) => Int);
*)
mc_props_props_curves_curves_num_dCeil(mc_props_props_curves_curves_num_x_3152) ==
  IF mc_props_props_curves_curves_num_x_3152 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_v ==
    mc_props_props_curves_curves_num_fit(((mc_props_props_curves_curves_num_x_3152
      + mc_props_props_curves_curves_num_ONE)
      - 1), (mc_props_props_curves_curves_num_M256))
  IN
  IF mc_props_props_curves_curves_num_v < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE (mc_props_props_curves_curves_num_v
    \div mc_props_props_curves_curves_num_ONE)
    * mc_props_props_curves_curves_num_ONE

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_dSub(mc_props_props_curves_curves_num_x_2961, mc_props_props_curves_curves_num_y_2961) ==
  IF mc_props_props_curves_curves_num_x_2961 < 0
    \/ mc_props_props_curves_curves_num_y_2961 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_2961
    - mc_props_props_curves_curves_num_y_2961), (mc_props_props_curves_curves_num_M256))

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_props_props_curves_curves_num_fixDiv(mc_props_props_curves_curves_num_one_3086,
mc_props_props_curves_curves_num_x_3086, mc_props_props_curves_curves_num_y_3086) ==
  IF mc_props_props_curves_curves_num_x_3086 < 0
    \/ mc_props_props_curves_curves_num_y_3086 <= 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE IF mc_props_props_curves_curves_num_x_3086
    * mc_props_props_curves_curves_num_one_3086
    <= mc_props_props_curves_curves_num_M256
  THEN LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_v ==
    mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_3086
      * mc_props_props_curves_curves_num_one_3086
      + mc_props_props_curves_curves_num_one_3086 \div 2), (mc_props_props_curves_curves_num_M256))
  IN
  IF mc_props_props_curves_curves_num_v < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_v
    \div mc_props_props_curves_curves_num_y_3086
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_v ==
    mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_3086
      + mc_props_props_curves_curves_num_one_3086 \div 2), (mc_props_props_curves_curves_num_M256))
  IN
  IF mc_props_props_curves_curves_num_v < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_fit(((mc_props_props_curves_curves_num_v
    \div mc_props_props_curves_curves_num_y_3086)
    * mc_props_props_curves_curves_num_one_3086), (mc_props_props_curves_curves_num_M256))

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_props_props_curves_curves_num_fixMul(mc_props_props_curves_curves_num_one_3022,
mc_props_props_curves_curves_num_x_3022, mc_props_props_curves_curves_num_y_3022) ==
  IF mc_props_props_curves_curves_num_x_3022 < 0
    \/ mc_props_props_curves_curves_num_y_3022 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE IF mc_props_props_curves_curves_num_x_3022
    * mc_props_props_curves_curves_num_y_3022
    <= mc_props_props_curves_curves_num_M256
  THEN LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_v ==
    mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_3022
      * mc_props_props_curves_curves_num_y_3022
      + mc_props_props_curves_curves_num_one_3022 \div 2), (mc_props_props_curves_curves_num_M256))
  IN
  IF mc_props_props_curves_curves_num_v < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_v
    \div mc_props_props_curves_curves_num_one_3022
  ELSE IF mc_props_props_curves_curves_num_x_3022
    >= mc_props_props_curves_curves_num_y_3022
  THEN mc_props_props_curves_curves_num_fit(((mc_props_props_curves_curves_num_x_3022
    \div mc_props_props_curves_curves_num_one_3022)
    * mc_props_props_curves_curves_num_y_3022), (mc_props_props_curves_curves_num_M256))
  ELSE mc_props_props_curves_curves_num_fit(((mc_props_props_curves_curves_num_y_3022
    \div mc_props_props_curves_curves_num_one_3022)
    * mc_props_props_curves_curves_num_x_3022), (mc_props_props_curves_curves_num_M256))

(*
  @type: ((Int) => Int);
*)
mc_props_props_curves_curves_num_dNew(mc_props_props_curves_curves_num_x_2919) ==
  IF mc_props_props_curves_curves_num_x_2919 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_2919
    * mc_props_props_curves_curves_num_ONE), (mc_props_props_curves_curves_num_M256))

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_dAdd(mc_props_props_curves_curves_num_x_2940, mc_props_props_curves_curves_num_y_2940) ==
  IF mc_props_props_curves_curves_num_x_2940 < 0
    \/ mc_props_props_curves_curves_num_y_2940 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_2940
    + mc_props_props_curves_curves_num_y_2940), (mc_props_props_curves_curves_num_M256))

(*
  @type: (() => Seq(Int));
*)
mc_props_props_curves_curves_num_SQSTEPS ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA5(mc_props_props_curves_curves_num_l_2878, mc_props_props_curves_curves_num_i_2878) ==
    Append(mc_props_props_curves_curves_num_l_2878, (2
      ^ (mc_props_props_curves_curves_num_SQBITS \div 2
        - mc_props_props_curves_curves_num_i_2878)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA5, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA4(__quint_var1) == (0 + __quint_var1) - 1
  IN
  MkSeq(((mc_props_props_curves_curves_num_SQBITS \div 2 + 1) - 0), __QUINT_LAMBDA4)))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Bool);
*)
mc_props_fair(mc_props_w_13154, mc_props_c_13154, mc_props_o_13154) ==
  IF mc_props_c_13154["op"] = mc_props_props_pool_SWAP
  THEN mc_props_loss(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (3 + 1)
    ])
      > 0
    /\ mc_props_gain(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (6 + 1)
    ])
      > 0
  ELSE IF mc_props_c_13154["op"] = mc_props_props_pool_DEPOSIT
  THEN mc_props_loss(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (3 + 1)
    ])
      > 0
    /\ mc_props_loss(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (4 + 1)
    ])
      > 0
    /\ (mc_props_gain(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
        (8 + 1)
      ])
        > 0
      \/ mc_props_props_pool_depositPoolTokens(mc_props_w_13154, mc_props_c_13154)
        = 0)
  ELSE IF mc_props_c_13154["op"] = mc_props_props_pool_WITHDRAW
  THEN (mc_props_loss(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
        (4 + 1)
      ])
        > 0
      \/ (mc_props_c_13154["ac"][(4 + 1)] = mc_props_c_13154["ac"][(9 + 1)]
        /\ mc_props_props_ledger_sup(mc_props_o_13154["next"], mc_props_c_13154[
          "ac"
        ][
          (3 + 1)
        ])
          < mc_props_props_ledger_sup(mc_props_w_13154, mc_props_c_13154["ac"][
            (3 + 1)
          ])))
    /\ (mc_props_gain(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
        (7 + 1)
      ])
        > 0
      \/ mc_props_props_ledger_amt(mc_props_w_13154, mc_props_c_13154["ac"][
        (5 + 1)
      ])
        = 0)
    /\ (mc_props_gain(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
        (8 + 1)
      ])
        > 0
      \/ mc_props_props_ledger_amt(mc_props_w_13154, mc_props_c_13154["ac"][
        (6 + 1)
      ])
        = 0)
  ELSE IF mc_props_c_13154["op"] = mc_props_props_pool_DEPOSIT1
  THEN mc_props_loss(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (3 + 1)
    ])
      > 0
    /\ mc_props_gain(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (7 + 1)
    ])
      > 0
  ELSE mc_props_loss(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (4 + 1)
    ])
      > 0
    /\ mc_props_gain(mc_props_w_13154, mc_props_o_13154, mc_props_c_13154["ac"][
      (7 + 1)
    ])
      > 0

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_mul128(mc_props_props_curves_curves_num_x_2733,
mc_props_props_curves_curves_num_y_2733) ==
  IF mc_props_props_curves_curves_num_x_2733 < 0
    \/ mc_props_props_curves_curves_num_y_2733 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_2733
    * mc_props_props_curves_curves_num_y_2733), (mc_props_props_curves_curves_num_M128))

(*
  @type: ((Int) => Int);
*)
mc_props_props_curves_leverage(mc_props_props_curves_amp_4554) ==
  IF mc_props_props_curves_amp_4554 * 2 > mc_props_props_curves_curves_num_M64
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_amp_4554 * 2

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_add128(mc_props_props_curves_curves_num_x_2691,
mc_props_props_curves_curves_num_y_2691) ==
  IF mc_props_props_curves_curves_num_x_2691 < 0
    \/ mc_props_props_curves_curves_num_y_2691 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_curves_num_x_2691
    + mc_props_props_curves_curves_num_y_2691), (mc_props_props_curves_curves_num_M128))

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
mc_props_props_curves_stableStep(mc_props_props_curves_lev_4665, mc_props_props_curves_sum_4665,
mc_props_props_curves_a2_4665, mc_props_props_curves_b2_4665, mc_props_props_curves_d_4665) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_p1 ==
    mc_props_props_curves_curves_num_fit((mc_props_props_curves_d_4665
      * mc_props_props_curves_d_4665), (mc_props_props_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_p2 ==
    IF mc_props_props_curves_p1 < 0
    THEN mc_props_props_curves_curves_num_NONE
    ELSE mc_props_props_curves_curves_num_fit(((mc_props_props_curves_p1
      \div mc_props_props_curves_a2_4665)
      * mc_props_props_curves_d_4665), (mc_props_props_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_dp ==
    IF mc_props_props_curves_p2 < 0
    THEN mc_props_props_curves_curves_num_NONE
    ELSE mc_props_props_curves_p2 \div mc_props_props_curves_b2_4665
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_l1 ==
    mc_props_props_curves_curves_num_fit((mc_props_props_curves_lev_4665
      * mc_props_props_curves_sum_4665), (mc_props_props_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_l2 ==
    IF mc_props_props_curves_dp < 0 \/ mc_props_props_curves_l1 < 0
    THEN mc_props_props_curves_curves_num_NONE
    ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_l1
      + 2 * mc_props_props_curves_dp), (mc_props_props_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_l ==
    IF mc_props_props_curves_l2 < 0
    THEN mc_props_props_curves_curves_num_NONE
    ELSE mc_props_props_curves_curves_num_fit((mc_props_props_curves_l2
      * mc_props_props_curves_d_4665), (mc_props_props_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_r ==
    IF mc_props_props_curves_l < 0 \/ mc_props_props_curves_lev_4665 < 1
    THEN mc_props_props_curves_curves_num_NONE
    ELSE mc_props_props_curves_curves_num_fit(((mc_props_props_curves_lev_4665
      - 1)
      * mc_props_props_curves_d_4665
      + 3 * mc_props_props_curves_dp), (mc_props_props_curves_curves_num_M256))
  IN
  IF mc_props_props_curves_r <= 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE mc_props_props_curves_l \div mc_props_props_curves_r

(*
  @type: ((Seq(Int), Int, Int) => Int);
*)
mc_props_props_curves_s2num(mc_props_props_curves_p_5279, mc_props_props_curves_a_5279,
mc_props_props_curves_ulps_5279) ==
  mc_props_props_curves_curves_num_hi(0, ((((mc_props_props_curves_p_5279[
    (2 + 1)
  ]
    * mc_props_props_curves_p_5279[(2 + 1)])
    * mc_props_props_curves_p_5279[(1 + 1)])
    * mc_props_props_curves_curves_num_ONE
    + ((((2 * mc_props_props_curves_p_5279[(0 + 1)])
      * mc_props_props_curves_a_5279)
      * mc_props_props_curves_p_5279[(3 + 1)])
      * mc_props_props_curves_p_5279[(3 + 1)])
      * mc_props_props_curves_curves_num_ONE)
    + ((mc_props_props_curves_ulps_5279 * mc_props_props_curves_p_5279[(3 + 1)])
      * mc_props_props_curves_p_5279[(3 + 1)])
      * mc_props_props_curves_p_5279[(1 + 1)]))

(*
  @type: ((Seq(Int)) => Int);
*)
mc_props_props_curves_s2den(mc_props_props_curves_p_5298) ==
  ((mc_props_props_curves_p_5298[(3 + 1)]
    * mc_props_props_curves_p_5298[(3 + 1)])
    * mc_props_props_curves_p_5298[(1 + 1)])
    * mc_props_props_curves_curves_num_ONE

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_fixDiv(mc_pool_pool_curves_curves_num_one_3086, mc_pool_pool_curves_curves_num_x_3086,
mc_pool_pool_curves_curves_num_y_3086) ==
  IF mc_pool_pool_curves_curves_num_x_3086 < 0
    \/ mc_pool_pool_curves_curves_num_y_3086 <= 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_curves_num_x_3086
    * mc_pool_pool_curves_curves_num_one_3086
    <= mc_pool_pool_curves_curves_num_M256
  THEN LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_v ==
    mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_3086
      * mc_pool_pool_curves_curves_num_one_3086
      + mc_pool_pool_curves_curves_num_one_3086 \div 2), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_curves_num_v < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_v
    \div mc_pool_pool_curves_curves_num_y_3086
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_v ==
    mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_3086
      + mc_pool_pool_curves_curves_num_one_3086 \div 2), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_curves_num_v < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_curves_num_v
    \div mc_pool_pool_curves_curves_num_y_3086)
    * mc_pool_pool_curves_curves_num_one_3086), (mc_pool_pool_curves_curves_num_M256))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_curves_num_x_2919) ==
  IF mc_pool_pool_curves_curves_num_x_2919 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_2919
    * mc_pool_pool_curves_curves_num_ONE), (mc_pool_pool_curves_curves_num_M256))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) => Int);
*)
mc_pool_pool_ledger_opError(mc_pool_pool_ledger_w_7525, mc_pool_pool_ledger_o_7525) ==
  IF mc_pool_pool_ledger_o_7525["kind"] = "transfer"
  THEN LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_s ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7525, mc_pool_pool_ledger_o_7525[
      "src"
    ])
  IN
  LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_d ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7525, mc_pool_pool_ledger_o_7525[
      "dst"
    ])
  IN
  IF (((mc_pool_pool_ledger_s)["st"] = 0 \/ (mc_pool_pool_ledger_d)["st"] = 0)
      \/ (mc_pool_pool_ledger_s)["prog"] /= "TOK")
    \/ (mc_pool_pool_ledger_d)["prog"] /= "TOK"
  THEN mc_pool_pool_ledger_ANYCODE
  ELSE IF (mc_pool_pool_ledger_s)["st"] = 2 \/ (mc_pool_pool_ledger_d)["st"] = 2
  THEN 17
  ELSE IF (mc_pool_pool_ledger_s)["amt"] < mc_pool_pool_ledger_o_7525["n"]
  THEN 1
  ELSE IF (mc_pool_pool_ledger_s)["mint"] /= (mc_pool_pool_ledger_d)["mint"]
  THEN 3
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_ledger_e ==
    mc_pool_pool_ledger_spendError((mc_pool_pool_ledger_s), mc_pool_pool_ledger_o_7525[
      "who"
    ], mc_pool_pool_ledger_o_7525["n"])
  IN
  IF mc_pool_pool_ledger_e /= 0
  THEN mc_pool_pool_ledger_e
  ELSE IF mc_pool_pool_ledger_o_7525["src"] /= mc_pool_pool_ledger_o_7525["dst"]
    /\ (mc_pool_pool_ledger_d)["amt"] + mc_pool_pool_ledger_o_7525["n"]
      > mc_pool_pool_ledger_ledger_num_M64
  THEN 14
  ELSE 0
  ELSE IF mc_pool_pool_ledger_o_7525["kind"] = "mint"
  THEN LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_d ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7525, mc_pool_pool_ledger_o_7525[
      "dst"
    ])
  IN
  LET (*
    @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
  *)
  mc_pool_pool_ledger_m ==
    mc_pool_pool_ledger_mint(mc_pool_pool_ledger_w_7525, mc_pool_pool_ledger_o_7525[
      "mint"
    ])
  IN
  IF (((mc_pool_pool_ledger_d)["st"] = 0 \/ (mc_pool_pool_ledger_m)["st"] = 0)
      \/ (mc_pool_pool_ledger_d)["prog"] /= "TOK")
    \/ (mc_pool_pool_ledger_m)["prog"] /= "TOK"
  THEN mc_pool_pool_ledger_ANYCODE
  ELSE IF (mc_pool_pool_ledger_d)["st"] = 2
  THEN 17
  ELSE IF (mc_pool_pool_ledger_d)["mint"] /= mc_pool_pool_ledger_o_7525["mint"]
  THEN 3
  ELSE IF (mc_pool_pool_ledger_m)["auth"] = ""
  THEN 5
  ELSE IF (mc_pool_pool_ledger_m)["auth"] /= mc_pool_pool_ledger_o_7525["who"]
  THEN 4
  ELSE IF (mc_pool_pool_ledger_m)["sup"] + mc_pool_pool_ledger_o_7525["n"]
      > mc_pool_pool_ledger_ledger_num_M64
    \/ (mc_pool_pool_ledger_d)["amt"] + mc_pool_pool_ledger_o_7525["n"]
      > mc_pool_pool_ledger_ledger_num_M64
  THEN 14
  ELSE 0
  ELSE LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_pool_ledger_s ==
    mc_pool_pool_ledger_tok(mc_pool_pool_ledger_w_7525, mc_pool_pool_ledger_o_7525[
      "src"
    ])
  IN
  LET (*
    @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
  *)
  mc_pool_pool_ledger_m ==
    mc_pool_pool_ledger_mint(mc_pool_pool_ledger_w_7525, mc_pool_pool_ledger_o_7525[
      "mint"
    ])
  IN
  IF (((mc_pool_pool_ledger_s)["st"] = 0 \/ (mc_pool_pool_ledger_m)["st"] = 0)
      \/ (mc_pool_pool_ledger_s)["prog"] /= "TOK")
    \/ (mc_pool_pool_ledger_m)["prog"] /= "TOK"
  THEN mc_pool_pool_ledger_ANYCODE
  ELSE IF (mc_pool_pool_ledger_s)["st"] = 2
  THEN 17
  ELSE IF (mc_pool_pool_ledger_s)["amt"] < mc_pool_pool_ledger_o_7525["n"]
  THEN 1
  ELSE IF (mc_pool_pool_ledger_s)["mint"] /= mc_pool_pool_ledger_o_7525["mint"]
  THEN 3
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_ledger_e ==
    mc_pool_pool_ledger_spendError((mc_pool_pool_ledger_s), mc_pool_pool_ledger_o_7525[
      "who"
    ], mc_pool_pool_ledger_o_7525["n"])
  IN
  IF mc_pool_pool_ledger_e /= 0
  THEN mc_pool_pool_ledger_e
  ELSE IF (mc_pool_pool_ledger_m)["sup"] < mc_pool_pool_ledger_o_7525["n"]
  THEN 14
  ELSE 0

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_binding(mc_pool_w_11434, mc_pool_c_11434, mc_pool_q_11434) ==
  IF mc_pool_c_11434["op"] = mc_pool_SWAP
  THEN mc_pool_swapBinding(mc_pool_w_11434, mc_pool_c_11434, mc_pool_q_11434)
  ELSE IF mc_pool_c_11434["op"] = mc_pool_DEPOSIT
  THEN mc_pool_depositBinding(mc_pool_w_11434, mc_pool_c_11434, mc_pool_q_11434)
  ELSE IF mc_pool_c_11434["op"] = mc_pool_WITHDRAW
  THEN mc_pool_withdrawBinding(mc_pool_w_11434, mc_pool_c_11434, mc_pool_q_11434)
  ELSE IF mc_pool_c_11434["op"] = mc_pool_DEPOSIT1
  THEN mc_pool_deposit1Binding(mc_pool_w_11434, mc_pool_c_11434, mc_pool_q_11434)
  ELSE mc_pool_withdraw1Binding(mc_pool_w_11434, mc_pool_c_11434, mc_pool_q_11434)

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_mul128(mc_pool_pool_curves_curves_num_x_2733, mc_pool_pool_curves_curves_num_y_2733) ==
  IF mc_pool_pool_curves_curves_num_x_2733 < 0
    \/ mc_pool_pool_curves_curves_num_y_2733 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_2733
    * mc_pool_pool_curves_curves_num_y_2733), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_curves_num_x_2691, mc_pool_pool_curves_curves_num_y_2691) ==
  IF mc_pool_pool_curves_curves_num_x_2691 < 0
    \/ mc_pool_pool_curves_curves_num_y_2691 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_2691
    + mc_pool_pool_curves_curves_num_y_2691), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_leverage(mc_pool_pool_curves_amp_4554) ==
  IF mc_pool_pool_curves_amp_4554 * 2 > mc_pool_pool_curves_curves_num_M64
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_amp_4554 * 2

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_stableY(mc_pool_pool_curves_lev_4868, mc_pool_pool_curves_ns_4868,
mc_pool_pool_curves_d_4868) ==
  IF (mc_pool_pool_curves_lev_4868 <= 0 \/ mc_pool_pool_curves_ns_4868 <= 0)
    \/ mc_pool_pool_curves_d_4868 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_c ==
    mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_d_4868
      * mc_pool_pool_curves_d_4868)
      * mc_pool_pool_curves_d_4868), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_c < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_c1 ==
    mc_pool_pool_curves_c
      \div ((4 * mc_pool_pool_curves_ns_4868) * mc_pool_pool_curves_lev_4868)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_b ==
    mc_pool_pool_curves_ns_4868
      + mc_pool_pool_curves_d_4868 \div mc_pool_pool_curves_lev_4868
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_y ==
    LET (*
      @type: ((<<Int, Bool>>, Int) => <<Int, Bool>>);
    *)
    __QUINT_LAMBDA34(mc_pool_pool_curves_acc_4854, mc_pool_pool_curves_i_4854) ==
      IF mc_pool_pool_curves_acc_4854[2] \/ mc_pool_pool_curves_acc_4854[1] < 0
      THEN mc_pool_pool_curves_acc_4854
      ELSE LET (*
        @type: (() => Int);
      *)
      mc_pool_pool_curves_den ==
        (2 * mc_pool_pool_curves_acc_4854[1] + mc_pool_pool_curves_b)
          - mc_pool_pool_curves_d_4868
      IN
      LET (*
        @type: (() => Int);
      *)
      mc_pool_pool_curves_n ==
        IF mc_pool_pool_curves_den <= 0
        THEN mc_pool_pool_curves_curves_num_NONE
        ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_acc_4854[1]
          * mc_pool_pool_curves_acc_4854[1]
          + mc_pool_pool_curves_c1), (mc_pool_pool_curves_curves_num_M256))
      IN
      LET (*
        @type: (() => Int);
      *)
      mc_pool_pool_curves_m ==
        IF mc_pool_pool_curves_n < 0
        THEN mc_pool_pool_curves_curves_num_NONE
        ELSE mc_pool_pool_curves_n \div mc_pool_pool_curves_den
      IN
      <<
        (mc_pool_pool_curves_m), (mc_pool_pool_curves_m
          = mc_pool_pool_curves_acc_4854[1])
      >>
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA34, <<mc_pool_pool_curves_d_4868, FALSE>>, (mc_pool_pool_curves_ROUNDS))[
      1
    ]
  IN
  mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_y), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int, Int, Int, Int, Int) => Int);
*)
mc_pool_pool_curves_stableStep(mc_pool_pool_curves_lev_4665, mc_pool_pool_curves_sum_4665,
mc_pool_pool_curves_a2_4665, mc_pool_pool_curves_b2_4665, mc_pool_pool_curves_d_4665) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_p1 ==
    mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_d_4665
      * mc_pool_pool_curves_d_4665), (mc_pool_pool_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_p2 ==
    IF mc_pool_pool_curves_p1 < 0
    THEN mc_pool_pool_curves_curves_num_NONE
    ELSE mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_p1
      \div mc_pool_pool_curves_a2_4665)
      * mc_pool_pool_curves_d_4665), (mc_pool_pool_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_dp ==
    IF mc_pool_pool_curves_p2 < 0
    THEN mc_pool_pool_curves_curves_num_NONE
    ELSE mc_pool_pool_curves_p2 \div mc_pool_pool_curves_b2_4665
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_l1 ==
    mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_lev_4665
      * mc_pool_pool_curves_sum_4665), (mc_pool_pool_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_l2 ==
    IF mc_pool_pool_curves_dp < 0 \/ mc_pool_pool_curves_l1 < 0
    THEN mc_pool_pool_curves_curves_num_NONE
    ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_l1
      + 2 * mc_pool_pool_curves_dp), (mc_pool_pool_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_l ==
    IF mc_pool_pool_curves_l2 < 0
    THEN mc_pool_pool_curves_curves_num_NONE
    ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_l2
      * mc_pool_pool_curves_d_4665), (mc_pool_pool_curves_curves_num_M256))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_r ==
    IF mc_pool_pool_curves_l < 0 \/ mc_pool_pool_curves_lev_4665 < 1
    THEN mc_pool_pool_curves_curves_num_NONE
    ELSE mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_lev_4665 - 1)
      * mc_pool_pool_curves_d_4665
      + 3 * mc_pool_pool_curves_dp), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_r <= 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_l \div mc_pool_pool_curves_r

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_sub128(mc_pool_pool_curves_curves_num_x_2712, mc_pool_pool_curves_curves_num_y_2712) ==
  IF mc_pool_pool_curves_curves_num_x_2712 < 0
    \/ mc_pool_pool_curves_curves_num_y_2712 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_2712
    - mc_pool_pool_curves_curves_num_y_2712), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_fixMul(mc_pool_pool_curves_curves_num_one_3022, mc_pool_pool_curves_curves_num_x_3022,
mc_pool_pool_curves_curves_num_y_3022) ==
  IF mc_pool_pool_curves_curves_num_x_3022 < 0
    \/ mc_pool_pool_curves_curves_num_y_3022 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_curves_num_x_3022
    * mc_pool_pool_curves_curves_num_y_3022
    <= mc_pool_pool_curves_curves_num_M256
  THEN LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_v ==
    mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_3022
      * mc_pool_pool_curves_curves_num_y_3022
      + mc_pool_pool_curves_curves_num_one_3022 \div 2), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_curves_num_v < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_v
    \div mc_pool_pool_curves_curves_num_one_3022
  ELSE IF mc_pool_pool_curves_curves_num_x_3022
    >= mc_pool_pool_curves_curves_num_y_3022
  THEN mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_curves_num_x_3022
    \div mc_pool_pool_curves_curves_num_one_3022)
    * mc_pool_pool_curves_curves_num_y_3022), (mc_pool_pool_curves_curves_num_M256))
  ELSE mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_curves_num_y_3022
    \div mc_pool_pool_curves_curves_num_one_3022)
    * mc_pool_pool_curves_curves_num_x_3022), (mc_pool_pool_curves_curves_num_M256))

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_dAdd(mc_pool_pool_curves_curves_num_x_2940, mc_pool_pool_curves_curves_num_y_2940) ==
  IF mc_pool_pool_curves_curves_num_x_2940 < 0
    \/ mc_pool_pool_curves_curves_num_y_2940 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_2940
    + mc_pool_pool_curves_curves_num_y_2940), (mc_pool_pool_curves_curves_num_M256))

(*
  @type: (() => Seq(Int));
*)
mc_pool_pool_curves_curves_num_SQSTEPS ==
  LET (*
    @type: ((Seq(Int), Int) => Seq(Int));
  *)
  __QUINT_LAMBDA38(mc_pool_pool_curves_curves_num_l_2878, mc_pool_pool_curves_curves_num_i_2878) ==
    Append(mc_pool_pool_curves_curves_num_l_2878, (2
      ^ (mc_pool_pool_curves_curves_num_SQBITS \div 2
        - mc_pool_pool_curves_curves_num_i_2878)))
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA38, <<>>, (LET (*
    @type: ((Int) => Int);
  *)
  __QUINT_LAMBDA37(__quint_var37) == (0 + __quint_var37) - 1
  IN
  MkSeq(((mc_pool_pool_curves_curves_num_SQBITS \div 2 + 1) - 0), __QUINT_LAMBDA37)))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_dInt(mc_pool_pool_curves_curves_num_x_3181) ==
  IF mc_pool_pool_curves_curves_num_x_3181 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_v ==
    mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_3181
      + mc_pool_pool_curves_curves_num_ONE \div 2), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_curves_num_v < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_v
    \div mc_pool_pool_curves_curves_num_ONE), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_dCeil(mc_pool_pool_curves_curves_num_x_3152) ==
  IF mc_pool_pool_curves_curves_num_x_3152 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_v ==
    mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_curves_num_x_3152
      + mc_pool_pool_curves_curves_num_ONE)
      - 1), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_curves_num_v < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE (mc_pool_pool_curves_curves_num_v \div mc_pool_pool_curves_curves_num_ONE)
    * mc_pool_pool_curves_curves_num_ONE

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_dSub(mc_pool_pool_curves_curves_num_x_2961, mc_pool_pool_curves_curves_num_y_2961) ==
  IF mc_pool_pool_curves_curves_num_x_2961 < 0
    \/ mc_pool_pool_curves_curves_num_y_2961 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_2961
    - mc_pool_pool_curves_curves_num_y_2961), (mc_pool_pool_curves_curves_num_M256))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_dFloor(mc_pool_pool_curves_curves_num_x_3123) ==
  IF mc_pool_pool_curves_curves_num_x_3123 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE (mc_pool_pool_curves_curves_num_x_3123
    \div mc_pool_pool_curves_curves_num_ONE)
    * mc_pool_pool_curves_curves_num_ONE

(*
  @type: ((Int, Int, Int, Int, Int, Bool, Bool) => Int);
*)
mc_pool_pool_curves_priceShare(mc_pool_pool_curves_p_6008, mc_pool_pool_curves_x_6008,
mc_pool_pool_curves_a_6008, mc_pool_pool_curves_b_6008, mc_pool_pool_curves_s_6008,
mc_pool_pool_curves_ofA_6008, mc_pool_pool_curves_up_6008) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_given ==
    IF mc_pool_pool_curves_ofA_6008
    THEN mc_pool_pool_curves_x_6008
    ELSE mc_pool_pool_curves_x_6008 * mc_pool_pool_curves_p_6008
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_total ==
    mc_pool_pool_curves_b_6008 * mc_pool_pool_curves_p_6008
      + mc_pool_pool_curves_a_6008
  IN
  IF (mc_pool_pool_curves_x_6008 < 0 \/ mc_pool_pool_curves_s_6008 < 0)
    \/ mc_pool_pool_curves_total = 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((IF mc_pool_pool_curves_up_6008
  THEN mc_pool_pool_curves_curves_num_strictCeilDiv((mc_pool_pool_curves_s_6008
    * mc_pool_pool_curves_given), (mc_pool_pool_curves_total))
  ELSE (mc_pool_pool_curves_s_6008 * mc_pool_pool_curves_given)
    \div mc_pool_pool_curves_total), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_pCeilInt(mc_pool_pool_curves_curves_num_x_3416) ==
  IF mc_pool_pool_curves_curves_num_x_3416 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_v ==
    mc_pool_pool_curves_curves_num_fit(((mc_pool_pool_curves_curves_num_x_3416
      + mc_pool_pool_curves_curves_num_PONE)
      - 1), (mc_pool_pool_curves_curves_num_M256))
  IN
  IF mc_pool_pool_curves_curves_num_v < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_v
    \div mc_pool_pool_curves_curves_num_PONE), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_curves_num_x_3350) ==
  IF mc_pool_pool_curves_curves_num_x_3350 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_3350
    * mc_pool_pool_curves_curves_num_PONE), (mc_pool_pool_curves_curves_num_M256))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_pFloorInt(mc_pool_pool_curves_curves_num_x_3387) ==
  IF mc_pool_pool_curves_curves_num_x_3387 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_curves_num_x_3387
    \div mc_pool_pool_curves_curves_num_PONE), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_dDiv(mc_props_props_curves_curves_num_x_3108, mc_props_props_curves_curves_num_y_3108) ==
  mc_props_props_curves_curves_num_fixDiv((mc_props_props_curves_curves_num_ONE),
  mc_props_props_curves_curves_num_x_3108, mc_props_props_curves_curves_num_y_3108)

(*
  @type: ((Int, Int) => Int);
*)
mc_props_props_curves_curves_num_dMul(mc_props_props_curves_curves_num_x_3097, mc_props_props_curves_curves_num_y_3097) ==
  mc_props_props_curves_curves_num_fixMul((mc_props_props_curves_curves_num_ONE),
  mc_props_props_curves_curves_num_x_3097, mc_props_props_curves_curves_num_y_3097)

(*
  @type: ((Int) => Int);
*)
mc_props_props_curves_curves_num_isqrt(mc_props_props_curves_curves_num_x_2904) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA6(mc_props_props_curves_curves_num_y_2902, mc_props_props_curves_curves_num_p_2902) ==
    IF (mc_props_props_curves_curves_num_y_2902
      + mc_props_props_curves_curves_num_p_2902)
      * (mc_props_props_curves_curves_num_y_2902
        + mc_props_props_curves_curves_num_p_2902)
      <= mc_props_props_curves_curves_num_x_2904
    THEN mc_props_props_curves_curves_num_y_2902
      + mc_props_props_curves_curves_num_p_2902
    ELSE mc_props_props_curves_curves_num_y_2902
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA6, 0, (mc_props_props_curves_curves_num_SQSTEPS))

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_props_props_curves_fee(mc_props_props_curves_x_4152, mc_props_props_curves_n_4152,
mc_props_props_curves_d_4152) ==
  IF mc_props_props_curves_x_4152 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE IF mc_props_props_curves_n_4152 = 0 \/ mc_props_props_curves_x_4152 = 0
  THEN 0
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_f ==
    mc_props_props_curves_curves_num_div128((mc_props_props_curves_curves_num_mul128(mc_props_props_curves_x_4152,
    mc_props_props_curves_n_4152)), mc_props_props_curves_d_4152)
  IN
  IF mc_props_props_curves_f = 0 THEN 1 ELSE mc_props_props_curves_f

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_props_props_curves_stableD(mc_props_props_curves_lev_4744, mc_props_props_curves_a_4744,
mc_props_props_curves_b_4744) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_sum ==
    mc_props_props_curves_curves_num_add128(mc_props_props_curves_a_4744, mc_props_props_curves_b_4744)
  IN
  IF mc_props_props_curves_lev_4744 < 0 \/ mc_props_props_curves_sum < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE IF mc_props_props_curves_sum = 0
  THEN 0
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_d ==
    LET (*
      @type: ((<<Int, Bool>>, Int) => <<Int, Bool>>);
    *)
    __QUINT_LAMBDA11(mc_props_props_curves_acc_4732, mc_props_props_curves_i_4732) ==
      IF mc_props_props_curves_acc_4732[2]
        \/ mc_props_props_curves_acc_4732[1] < 0
      THEN mc_props_props_curves_acc_4732
      ELSE LET (*
        @type: (() => Int);
      *)
      mc_props_props_curves_n ==
        mc_props_props_curves_stableStep(mc_props_props_curves_lev_4744, (mc_props_props_curves_sum),
        (2 * mc_props_props_curves_a_4744 + 1), (2
          * mc_props_props_curves_b_4744
          + 1), mc_props_props_curves_acc_4732[1])
      IN
      <<
        (mc_props_props_curves_n), (mc_props_props_curves_n
          = mc_props_props_curves_acc_4732[1])
      >>
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA11, <<(mc_props_props_curves_sum), FALSE>>, (mc_props_props_curves_ROUNDS))[
      1
    ]
  IN
  mc_props_props_curves_curves_num_fit((mc_props_props_curves_d), (mc_props_props_curves_curves_num_M128))

(*
  @type: ((Seq(Int), Int, Int, Int, Int) => Bool);
*)
mc_props_props_curves_linBuyPromise(mc_props_props_curves_p_5431, mc_props_props_curves_a_5431,
mc_props_props_curves_x_5431, mc_props_props_curves_d_5431, mc_props_props_curves_slack_5431) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_dn ==
    mc_props_props_curves_d_5431 * mc_props_props_curves_curves_num_ONE - 2
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_tn ==
    (((((((16 * mc_props_props_curves_x_5431) * 2)
      * mc_props_props_curves_p_5431[(1 + 1)])
      * mc_props_props_curves_p_5431[(0 + 1)])
      * mc_props_props_curves_curves_num_ONE)
      * mc_props_props_curves_curves_num_ONE
      + (((16 * 2) * mc_props_props_curves_p_5431[(1 + 1)])
        * mc_props_props_curves_p_5431[(1 + 1)])
        * mc_props_props_curves_curves_num_ONE)
      + ((((mc_props_props_curves_slack_5431 * 2)
        * mc_props_props_curves_p_5431[(1 + 1)])
        * mc_props_props_curves_p_5431[(0 + 1)])
        * mc_props_props_curves_curves_num_ONE)
        * mc_props_props_curves_curves_num_ONE)
      - (((16 * mc_props_props_curves_p_5431[(0 + 1)])
        * mc_props_props_curves_p_5431[(0 + 1)])
        * mc_props_props_curves_dn)
        * mc_props_props_curves_dn
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_td ==
    ((((16 * 2) * mc_props_props_curves_p_5431[(1 + 1)])
      * mc_props_props_curves_p_5431[(0 + 1)])
      * mc_props_props_curves_curves_num_ONE)
      * mc_props_props_curves_curves_num_ONE
  IN
  mc_props_props_curves_dn <= 0
    \/ (mc_props_props_curves_tn >= 0
      /\ (((mc_props_props_curves_dn * mc_props_props_curves_dn)
        * mc_props_props_curves_s2num(mc_props_props_curves_p_5431, mc_props_props_curves_a_5431,
        (-2)))
        * mc_props_props_curves_td)
        * mc_props_props_curves_td
        <= (((mc_props_props_curves_tn * mc_props_props_curves_tn)
          * mc_props_props_curves_s2den(mc_props_props_curves_p_5431))
          * mc_props_props_curves_curves_num_ONE)
          * mc_props_props_curves_curves_num_ONE)

(*
  @type: ((Seq(Int), Int, Int, Int) => Bool);
*)
mc_props_props_curves_linSellPromise(mc_props_props_curves_p_5557, mc_props_props_curves_a_5557,
mc_props_props_curves_d_5557, mc_props_props_curves_y_5557) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_den ==
    (((16 * 2) * mc_props_props_curves_p_5557[(1 + 1)])
      * mc_props_props_curves_p_5557[(0 + 1)])
      * mc_props_props_curves_curves_num_ONE
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_w ==
    (mc_props_props_curves_y_5557 * mc_props_props_curves_den
      - (((16 * 16) * 2) * mc_props_props_curves_p_5557[(1 + 1)])
        * mc_props_props_curves_p_5557[(1 + 1)])
      - ((2 * mc_props_props_curves_p_5557[(1 + 1)])
        * mc_props_props_curves_p_5557[(0 + 1)])
        * mc_props_props_curves_curves_num_ONE
      + ((((16 * mc_props_props_curves_p_5557[(0 + 1)])
        * mc_props_props_curves_p_5557[(0 + 1)])
        * mc_props_props_curves_curves_num_ONE)
        * mc_props_props_curves_d_5557)
        * mc_props_props_curves_d_5557
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_v ==
    (mc_props_props_curves_d_5557 * mc_props_props_curves_den
      + (((2 * 16) * 2) * mc_props_props_curves_p_5557[(1 + 1)])
        * mc_props_props_curves_p_5557[(0 + 1)])
      + (((2 * 16) * 2) * mc_props_props_curves_p_5557[(1 + 1)])
        * mc_props_props_curves_p_5557[(1 + 1)]
  IN
  mc_props_props_curves_w <= 0
    \/ (mc_props_props_curves_w * mc_props_props_curves_w)
      * mc_props_props_curves_s2den(mc_props_props_curves_p_5557)
      <= (mc_props_props_curves_v * mc_props_props_curves_v)
        * mc_props_props_curves_s2num(mc_props_props_curves_p_5557, mc_props_props_curves_a_5557,
        2)

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_dDiv(mc_pool_pool_curves_curves_num_x_3108, mc_pool_pool_curves_curves_num_y_3108) ==
  mc_pool_pool_curves_curves_num_fixDiv((mc_pool_pool_curves_curves_num_ONE), mc_pool_pool_curves_curves_num_x_3108,
  mc_pool_pool_curves_curves_num_y_3108)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str })) => { err: Int, w: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) } });
*)
mc_pool_pool_ledger_perform(mc_pool_pool_ledger_w_7759, mc_pool_pool_ledger_ops_7759) ==
  LET (*
    @type: (({ err: Int, w: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) } }, { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) => { err: Int, w: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) } });
  *)
  __QUINT_LAMBDA28(mc_pool_pool_ledger_acc_7757, mc_pool_pool_ledger_o_7757) ==
    IF mc_pool_pool_ledger_acc_7757["err"] /= 0
    THEN mc_pool_pool_ledger_acc_7757
    ELSE LET (*
      @type: (() => Int);
    *)
    mc_pool_pool_ledger_e ==
      mc_pool_pool_ledger_opError(mc_pool_pool_ledger_acc_7757["w"], mc_pool_pool_ledger_o_7757)
    IN
    IF mc_pool_pool_ledger_e /= 0
    THEN [w |-> mc_pool_pool_ledger_acc_7757["w"],
      err |-> mc_pool_pool_ledger_e]
    ELSE [w |->
        mc_pool_pool_ledger_opApply(mc_pool_pool_ledger_acc_7757["w"], mc_pool_pool_ledger_o_7757),
      err |-> 0]
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA28, [w |-> mc_pool_pool_ledger_w_7759, err |-> 0],
  mc_pool_pool_ledger_ops_7759)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str })) => Set(Int));
*)
mc_pool_pool_ledger_eachError(mc_pool_pool_ledger_w_7788, mc_pool_pool_ledger_ops_7788) ==
  LET (*
    @type: ((Set(Int), { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) => Set(Int));
  *)
  __QUINT_LAMBDA29(mc_pool_pool_ledger_acc_7786, mc_pool_pool_ledger_o_7786) ==
    LET (*
      @type: (() => Int);
    *)
    mc_pool_pool_ledger_e ==
      mc_pool_pool_ledger_opError(mc_pool_pool_ledger_w_7788, mc_pool_pool_ledger_o_7786)
    IN
    IF mc_pool_pool_ledger_e = 0
    THEN mc_pool_pool_ledger_acc_7786
    ELSE mc_pool_pool_ledger_acc_7786 \union {(mc_pool_pool_ledger_e)}
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA29, {}, mc_pool_pool_ledger_ops_7788)

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_fee(mc_pool_pool_curves_x_4152, mc_pool_pool_curves_n_4152, mc_pool_pool_curves_d_4152) ==
  IF mc_pool_pool_curves_x_4152 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_n_4152 = 0 \/ mc_pool_pool_curves_x_4152 = 0
  THEN 0
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_f ==
    mc_pool_pool_curves_curves_num_div128((mc_pool_pool_curves_curves_num_mul128(mc_pool_pool_curves_x_4152,
    mc_pool_pool_curves_n_4152)), mc_pool_pool_curves_d_4152)
  IN
  IF mc_pool_pool_curves_f = 0 THEN 1 ELSE mc_pool_pool_curves_f

(*
  @type: ((Int, Int, Bool) => { dst: Int, src: Int });
*)
mc_pool_pool_curves_priceSwap(mc_pool_pool_curves_p_4347, mc_pool_pool_curves_x_4347,
mc_pool_pool_curves_aToB_4347) ==
  IF mc_pool_pool_curves_p_4347 = 0
  THEN mc_pool_pool_curves_NOQUOTE
  ELSE IF mc_pool_pool_curves_aToB_4347
  THEN mc_pool_pool_curves_quote(((mc_pool_pool_curves_x_4347
    \div mc_pool_pool_curves_p_4347)
    * mc_pool_pool_curves_p_4347), (mc_pool_pool_curves_x_4347
    \div mc_pool_pool_curves_p_4347))
  ELSE mc_pool_pool_curves_quote(mc_pool_pool_curves_x_4347, (mc_pool_pool_curves_curves_num_mul128(mc_pool_pool_curves_x_4347,
  mc_pool_pool_curves_p_4347)))

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_stableD(mc_pool_pool_curves_lev_4744, mc_pool_pool_curves_a_4744,
mc_pool_pool_curves_b_4744) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_sum ==
    mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_a_4744, mc_pool_pool_curves_b_4744)
  IN
  IF mc_pool_pool_curves_lev_4744 < 0 \/ mc_pool_pool_curves_sum < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_sum = 0
  THEN 0
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_d ==
    LET (*
      @type: ((<<Int, Bool>>, Int) => <<Int, Bool>>);
    *)
    __QUINT_LAMBDA35(mc_pool_pool_curves_acc_4732, mc_pool_pool_curves_i_4732) ==
      IF mc_pool_pool_curves_acc_4732[2] \/ mc_pool_pool_curves_acc_4732[1] < 0
      THEN mc_pool_pool_curves_acc_4732
      ELSE LET (*
        @type: (() => Int);
      *)
      mc_pool_pool_curves_n ==
        mc_pool_pool_curves_stableStep(mc_pool_pool_curves_lev_4744, (mc_pool_pool_curves_sum),
        (2 * mc_pool_pool_curves_a_4744 + 1), (2 * mc_pool_pool_curves_b_4744
          + 1), mc_pool_pool_curves_acc_4732[1])
      IN
      <<
        (mc_pool_pool_curves_n), (mc_pool_pool_curves_n
          = mc_pool_pool_curves_acc_4732[1])
      >>
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA35, <<(mc_pool_pool_curves_sum), FALSE>>, (mc_pool_pool_curves_ROUNDS))[
      1
    ]
  IN
  mc_pool_pool_curves_curves_num_fit((mc_pool_pool_curves_d), (mc_pool_pool_curves_curves_num_M128))

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_dMul(mc_pool_pool_curves_curves_num_x_3097, mc_pool_pool_curves_curves_num_y_3097) ==
  mc_pool_pool_curves_curves_num_fixMul((mc_pool_pool_curves_curves_num_ONE), mc_pool_pool_curves_curves_num_x_3097,
  mc_pool_pool_curves_curves_num_y_3097)

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_isqrt(mc_pool_pool_curves_curves_num_x_2904) ==
  LET (*
    @type: ((Int, Int) => Int);
  *)
  __QUINT_LAMBDA39(mc_pool_pool_curves_curves_num_y_2902, mc_pool_pool_curves_curves_num_p_2902) ==
    IF (mc_pool_pool_curves_curves_num_y_2902
      + mc_pool_pool_curves_curves_num_p_2902)
      * (mc_pool_pool_curves_curves_num_y_2902
        + mc_pool_pool_curves_curves_num_p_2902)
      <= mc_pool_pool_curves_curves_num_x_2904
    THEN mc_pool_pool_curves_curves_num_y_2902
      + mc_pool_pool_curves_curves_num_p_2902
    ELSE mc_pool_pool_curves_curves_num_y_2902
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA39, 0, (mc_pool_pool_curves_curves_num_SQSTEPS))

(*
  @type: ((Int, Int, Int) => { dst: Int, src: Int });
*)
mc_pool_pool_curves_productSwap(mc_pool_pool_curves_x_4450, mc_pool_pool_curves_rs_4450,
mc_pool_pool_curves_rd_4450) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_inv ==
    mc_pool_pool_curves_curves_num_mul128(mc_pool_pool_curves_rs_4450, mc_pool_pool_curves_rd_4450)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_ns ==
    mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_rs_4450, mc_pool_pool_curves_x_4450)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_nd ==
    mc_pool_pool_curves_curves_num_strictCeilDiv((mc_pool_pool_curves_inv), (mc_pool_pool_curves_ns))
  IN
  IF mc_pool_pool_curves_nd < 0
  THEN mc_pool_pool_curves_NOQUOTE
  ELSE mc_pool_pool_curves_quote((IF mc_pool_pool_curves_inv
    % mc_pool_pool_curves_ns
    = 0
  THEN mc_pool_pool_curves_x_4450
  ELSE mc_pool_pool_curves_curves_num_ceilDiv((mc_pool_pool_curves_inv), (mc_pool_pool_curves_nd))
    - mc_pool_pool_curves_rs_4450), (mc_pool_pool_curves_rd_4450
    - mc_pool_pool_curves_nd))

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_pDiv(mc_pool_pool_curves_curves_num_x_3372, mc_pool_pool_curves_curves_num_y_3372) ==
  mc_pool_pool_curves_curves_num_fixDiv((mc_pool_pool_curves_curves_num_PONE), mc_pool_pool_curves_curves_num_x_3372,
  mc_pool_pool_curves_curves_num_y_3372)

(*
  @type: ((Int, Int) => Int);
*)
mc_pool_pool_curves_curves_num_pMul(mc_pool_pool_curves_curves_num_x_3361, mc_pool_pool_curves_curves_num_y_3361) ==
  mc_pool_pool_curves_curves_num_fixMul((mc_pool_pool_curves_curves_num_PONE), mc_pool_pool_curves_curves_num_x_3361,
  mc_pool_pool_curves_curves_num_y_3361)

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_priceValue(mc_pool_pool_curves_p_5826, mc_pool_pool_curves_a_5826,
mc_pool_pool_curves_b_5826) ==
  mc_pool_pool_curves_curves_num_div128((mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_a_5826,
  (mc_pool_pool_curves_curves_num_mul128(mc_pool_pool_curves_b_5826, mc_pool_pool_curves_p_5826)))),
  2)

(*
  @type: ((Int, Int, Int, Bool) => Int);
*)
mc_pool_pool_curves_share(mc_pool_pool_curves_pt_5868, mc_pool_pool_curves_s_5868,
mc_pool_pool_curves_r_5868, mc_pool_pool_curves_up_5868) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_n ==
    mc_pool_pool_curves_curves_num_mul128(mc_pool_pool_curves_pt_5868, mc_pool_pool_curves_r_5868)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_q ==
    mc_pool_pool_curves_curves_num_div128((mc_pool_pool_curves_n), mc_pool_pool_curves_s_5868)
  IN
  IF mc_pool_pool_curves_q < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF (mc_pool_pool_curves_up_5868 /\ mc_pool_pool_curves_q > 0)
    /\ mc_pool_pool_curves_n % mc_pool_pool_curves_s_5868 > 0
  THEN mc_pool_pool_curves_q + 1
  ELSE mc_pool_pool_curves_q

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_props_props_curves_linIntegral(mc_props_props_curves_p_4953, mc_props_props_curves_b_4953) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_quad ==
    mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_4953[
      (0 + 1)
    ])), mc_props_props_curves_b_4953)), mc_props_props_curves_b_4953)), (mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_4953[
      (1 + 1)
    ])))), (mc_props_props_curves_curves_num_dNew(2)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_lin ==
    mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_4953[
      (2 + 1)
    ])), mc_props_props_curves_b_4953)), (mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_4953[
      (3 + 1)
    ])))
  IN
  mc_props_props_curves_curves_num_dAdd((mc_props_props_curves_quad), (mc_props_props_curves_lin))

(*
  @type: ((Int, Bool) => Int);
*)
mc_props_props_curves_curves_num_dSqrt(mc_props_props_curves_curves_num_x_3335, mc_props_props_curves_curves_num_up_3335) ==
  IF mc_props_props_curves_curves_num_x_3335 < 0
  THEN mc_props_props_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_bits ==
    mc_props_props_curves_curves_num_bitLength(mc_props_props_curves_curves_num_x_3335)
  IN
  IF mc_props_props_curves_curves_num_bits
    <= mc_props_props_curves_curves_num_SQBITS
  THEN LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_pad ==
    ((mc_props_props_curves_curves_num_SQBITS
      - mc_props_props_curves_curves_num_bits)
      \div 2)
      * 2
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_c ==
    2 ^ (mc_props_props_curves_curves_num_pad \div 2)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_p ==
    mc_props_props_curves_curves_num_x_3335
      * 2 ^ mc_props_props_curves_curves_num_pad
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_s0 ==
    mc_props_props_curves_curves_num_isqrt((mc_props_props_curves_curves_num_p))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_s ==
    IF mc_props_props_curves_curves_num_up_3335
      /\ mc_props_props_curves_curves_num_s0
        * mc_props_props_curves_curves_num_s0
        < mc_props_props_curves_curves_num_p
    THEN mc_props_props_curves_curves_num_s0 + 1
    ELSE mc_props_props_curves_curves_num_s0
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_n ==
    mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_s), (mc_props_props_curves_curves_num_RONE
      * mc_props_props_curves_curves_num_ONE))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_r ==
    mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_n), (mc_props_props_curves_curves_num_c
      * mc_props_props_curves_curves_num_ONE))
  IN
  IF mc_props_props_curves_curves_num_up_3335
    /\ mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_r),
    (mc_props_props_curves_curves_num_c * mc_props_props_curves_curves_num_ONE))
      < mc_props_props_curves_curves_num_n
  THEN mc_props_props_curves_curves_num_dAdd((mc_props_props_curves_curves_num_r),
  1)
  ELSE mc_props_props_curves_curves_num_r
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_pad ==
    ((mc_props_props_curves_curves_num_bits
      - mc_props_props_curves_curves_num_SQBITS
      + 1)
      \div 2)
      * 2
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_p0 ==
    mc_props_props_curves_curves_num_x_3335
      \div 2 ^ mc_props_props_curves_curves_num_pad
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_p ==
    IF mc_props_props_curves_curves_num_up_3335
      /\ mc_props_props_curves_curves_num_p0
        * 2 ^ mc_props_props_curves_curves_num_pad
        < mc_props_props_curves_curves_num_x_3335
    THEN mc_props_props_curves_curves_num_p0 + 1
    ELSE mc_props_props_curves_curves_num_p0
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_s0 ==
    mc_props_props_curves_curves_num_isqrt((mc_props_props_curves_curves_num_p))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_curves_num_s ==
    IF mc_props_props_curves_curves_num_up_3335
      /\ mc_props_props_curves_curves_num_s0
        * mc_props_props_curves_curves_num_s0
        < mc_props_props_curves_curves_num_p
    THEN mc_props_props_curves_curves_num_s0 + 1
    ELSE mc_props_props_curves_curves_num_s0
  IN
  mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_s),
  (mc_props_props_curves_curves_num_RONE * mc_props_props_curves_curves_num_ONE))),
  (2 ^ (mc_props_props_curves_curves_num_pad \div 2)
    * mc_props_props_curves_curves_num_ONE))

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_props_props_curves_tradeFee(mc_props_props_curves_fs_4168, mc_props_props_curves_x_4168) ==
  mc_props_props_curves_fee(mc_props_props_curves_x_4168, mc_props_props_curves_fs_4168[
    (0 + 1)
  ], mc_props_props_curves_fs_4168[(1 + 1)])

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_props_props_curves_ownerFee(mc_props_props_curves_fs_4184, mc_props_props_curves_x_4184) ==
  mc_props_props_curves_fee(mc_props_props_curves_x_4184, mc_props_props_curves_fs_4184[
    (2 + 1)
  ], mc_props_props_curves_fs_4184[(3 + 1)])

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, Int, Int, Int, Int, Int, Int) => Bool);
*)
mc_props_oneSidePromise(mc_props_q_14046, mc_props_s_14046, mc_props_a_14046, mc_props_b_14046,
mc_props_a2_14046, mc_props_b2_14046, mc_props_s2_14046) ==
  IF mc_props_q_14046["ck"] = mc_props_props_curves_PRICE
  THEN mc_props_props_curves_priceNotDiluted(mc_props_q_14046["cp"][(0 + 1)], mc_props_a_14046,
  mc_props_b_14046, mc_props_s_14046, mc_props_a2_14046, mc_props_b2_14046, mc_props_s2_14046)
  ELSE IF mc_props_q_14046["ck"] = mc_props_props_curves_STABLE
  THEN LET (*
    @type: (() => Int);
  *)
  mc_props_lev ==
    mc_props_props_curves_leverage(mc_props_q_14046["cp"][(0 + 1)])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_d0 ==
    mc_props_props_num_lo((mc_props_props_curves_stableD((mc_props_lev), mc_props_a_14046,
    mc_props_b_14046)), (mc_props_props_curves_stableD((mc_props_lev), mc_props_b_14046,
    mc_props_a_14046)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_d1 ==
    mc_props_props_num_hi((mc_props_props_curves_stableD((mc_props_lev), (mc_props_a2_14046
      + 1), (mc_props_b2_14046 + 1))), (mc_props_props_curves_stableD((mc_props_lev),
    (mc_props_b2_14046 + 1), (mc_props_a2_14046 + 1))))
  IN
  (mc_props_d0 < 0 \/ mc_props_d1 < 0)
    \/ (mc_props_d1 + 2) * mc_props_s_14046 + mc_props_d0
      >= mc_props_d0 * mc_props_s2_14046
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_props_o ==
    IF mc_props_q_14046["ck"] = mc_props_props_curves_OFFSET
    THEN mc_props_q_14046["cp"][(0 + 1)]
    ELSE 0
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_t ==
    (mc_props_s2_14046
      - ((mc_props_s_14046 * 3) * mc_props_props_num_SNAP)
        \div mc_props_props_num_PONE)
      - 1
  IN
  LET (*
    @type: ((Int) => Int);
  *)
  mc_props_finer(mc_props_n_14004) == mc_props_n_14004 * mc_props_props_num_PONE
  IN
  mc_props_t <= 0
    \/ mc_props_props_curves_productNotDiluted((mc_props_finer(mc_props_a_14046)),
    (mc_props_finer((mc_props_b_14046 + mc_props_o))), mc_props_s_14046, (mc_props_finer(mc_props_a2_14046)
      + (IF mc_props_a2_14046 < mc_props_a_14046 THEN mc_props_a_14046 ELSE 0)),
    (mc_props_finer((mc_props_b2_14046 + mc_props_o))
      + (IF mc_props_b2_14046 < mc_props_b_14046
      THEN mc_props_b_14046 + mc_props_o
      ELSE 0)), (mc_props_t))

(*
  @type: ((Int, Int) => Bool);
*)
mc_pool_pool_curves_slopeRepresentable(mc_pool_pool_curves_sn_4019, mc_pool_pool_curves_sd_4019) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_q ==
    mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_sn_4019)),
    (mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_sd_4019)))
  IN
  mc_pool_pool_curves_q
    >= mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dNew(1)),
    (mc_pool_pool_curves_curves_num_dNew((mc_pool_pool_curves_curves_num_ONE))))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str })) => { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool });
*)
mc_pool_ledgerConds(mc_pool_w_11566, mc_pool_c_11566, mc_pool_ops_11566) ==
  LET (*
    @type: (() => { err: Int, w: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) } });
  *)
  mc_pool_r == mc_pool_pool_ledger_perform(mc_pool_w_11566, mc_pool_ops_11566)
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_pool_unauthorized ==
    Len(LET (*
      @type: ((Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }), { dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) => Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }));
    *)
    __QUINT_LAMBDA32(__quint_var35, __QUINT_LAMBDA31) ==
      IF LET (*
        @type: (({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) => Bool);
      *)
      __QUINT_LAMBDA30(mc_pool_o_11537) ==
        mc_pool_o_11537["kind"] /= "mint"
          /\ mc_pool_pool_ledger_spendError((mc_pool_pool_ledger_tok(mc_pool_w_11566,
          mc_pool_o_11537["src"])), mc_pool_o_11537["who"], mc_pool_o_11537["n"])
            /= 0
      IN
      __QUINT_LAMBDA30(__QUINT_LAMBDA31)
      THEN Append(__quint_var35, __QUINT_LAMBDA31)
      ELSE __quint_var35
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA32, <<>>, mc_pool_ops_11566))
      > 0
  IN
  mc_pool_when(((mc_pool_r)["err"] /= 0), (IF mc_pool_unauthorized
  THEN { "P01", "P08" }
  ELSE {"P08"}), (mc_pool_pool_ledger_eachError(mc_pool_w_11566, mc_pool_ops_11566)
    \union {(mc_pool_r)["err"]}))

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_pool_pool_curves_ownerFee(mc_pool_pool_curves_fs_4184, mc_pool_pool_curves_x_4184) ==
  mc_pool_pool_curves_fee(mc_pool_pool_curves_x_4184, mc_pool_pool_curves_fs_4184[
    (2 + 1)
  ], mc_pool_pool_curves_fs_4184[(3 + 1)])

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_pool_pool_curves_tradeFee(mc_pool_pool_curves_fs_4168, mc_pool_pool_curves_x_4168) ==
  mc_pool_pool_curves_fee(mc_pool_pool_curves_x_4168, mc_pool_pool_curves_fs_4168[
    (0 + 1)
  ], mc_pool_pool_curves_fs_4168[(1 + 1)])

(*
  @type: ((Int, Int, Int, Int) => { dst: Int, src: Int });
*)
mc_pool_pool_curves_stableSwap(mc_pool_pool_curves_amp_4911, mc_pool_pool_curves_x_4911,
mc_pool_pool_curves_rs_4911, mc_pool_pool_curves_rd_4911) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_lev ==
    mc_pool_pool_curves_leverage(mc_pool_pool_curves_amp_4911)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_y ==
    mc_pool_pool_curves_stableY((mc_pool_pool_curves_lev), (mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_rs_4911,
    mc_pool_pool_curves_x_4911)), (mc_pool_pool_curves_stableD((mc_pool_pool_curves_lev),
    mc_pool_pool_curves_rs_4911, mc_pool_pool_curves_rd_4911)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_out ==
    mc_pool_pool_curves_curves_num_sub128(mc_pool_pool_curves_rd_4911, (mc_pool_pool_curves_y))
  IN
  IF mc_pool_pool_curves_y < 0 \/ mc_pool_pool_curves_out < 0
  THEN mc_pool_pool_curves_NOQUOTE
  ELSE mc_pool_pool_curves_quote(mc_pool_pool_curves_x_4911, (mc_pool_pool_curves_out))

(*
  @type: ((Int, Bool) => Int);
*)
mc_pool_pool_curves_curves_num_dSqrt(mc_pool_pool_curves_curves_num_x_3335, mc_pool_pool_curves_curves_num_up_3335) ==
  IF mc_pool_pool_curves_curves_num_x_3335 < 0
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_bits ==
    mc_pool_pool_curves_curves_num_bitLength(mc_pool_pool_curves_curves_num_x_3335)
  IN
  IF mc_pool_pool_curves_curves_num_bits
    <= mc_pool_pool_curves_curves_num_SQBITS
  THEN LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_pad ==
    ((mc_pool_pool_curves_curves_num_SQBITS
      - mc_pool_pool_curves_curves_num_bits)
      \div 2)
      * 2
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_c ==
    2 ^ (mc_pool_pool_curves_curves_num_pad \div 2)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_p ==
    mc_pool_pool_curves_curves_num_x_3335
      * 2 ^ mc_pool_pool_curves_curves_num_pad
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_s0 ==
    mc_pool_pool_curves_curves_num_isqrt((mc_pool_pool_curves_curves_num_p))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_s ==
    IF mc_pool_pool_curves_curves_num_up_3335
      /\ mc_pool_pool_curves_curves_num_s0 * mc_pool_pool_curves_curves_num_s0
        < mc_pool_pool_curves_curves_num_p
    THEN mc_pool_pool_curves_curves_num_s0 + 1
    ELSE mc_pool_pool_curves_curves_num_s0
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_n ==
    mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_s), (mc_pool_pool_curves_curves_num_RONE
      * mc_pool_pool_curves_curves_num_ONE))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_r ==
    mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_n), (mc_pool_pool_curves_curves_num_c
      * mc_pool_pool_curves_curves_num_ONE))
  IN
  IF mc_pool_pool_curves_curves_num_up_3335
    /\ mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_r), (mc_pool_pool_curves_curves_num_c
      * mc_pool_pool_curves_curves_num_ONE))
      < mc_pool_pool_curves_curves_num_n
  THEN mc_pool_pool_curves_curves_num_dAdd((mc_pool_pool_curves_curves_num_r), 1)
  ELSE mc_pool_pool_curves_curves_num_r
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_pad ==
    ((mc_pool_pool_curves_curves_num_bits
      - mc_pool_pool_curves_curves_num_SQBITS
      + 1)
      \div 2)
      * 2
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_p0 ==
    mc_pool_pool_curves_curves_num_x_3335
      \div 2 ^ mc_pool_pool_curves_curves_num_pad
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_p ==
    IF mc_pool_pool_curves_curves_num_up_3335
      /\ mc_pool_pool_curves_curves_num_p0
        * 2 ^ mc_pool_pool_curves_curves_num_pad
        < mc_pool_pool_curves_curves_num_x_3335
    THEN mc_pool_pool_curves_curves_num_p0 + 1
    ELSE mc_pool_pool_curves_curves_num_p0
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_s0 ==
    mc_pool_pool_curves_curves_num_isqrt((mc_pool_pool_curves_curves_num_p))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_curves_num_s ==
    IF mc_pool_pool_curves_curves_num_up_3335
      /\ mc_pool_pool_curves_curves_num_s0 * mc_pool_pool_curves_curves_num_s0
        < mc_pool_pool_curves_curves_num_p
    THEN mc_pool_pool_curves_curves_num_s0 + 1
    ELSE mc_pool_pool_curves_curves_num_s0
  IN
  mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_s),
  (mc_pool_pool_curves_curves_num_RONE * mc_pool_pool_curves_curves_num_ONE))), (2
    ^ (mc_pool_pool_curves_curves_num_pad \div 2)
    * mc_pool_pool_curves_curves_num_ONE))

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_pool_pool_curves_linIntegral(mc_pool_pool_curves_p_4953, mc_pool_pool_curves_b_4953) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_quad ==
    mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_4953[
      (0 + 1)
    ])), mc_pool_pool_curves_b_4953)), mc_pool_pool_curves_b_4953)), (mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_4953[
      (1 + 1)
    ])))), (mc_pool_pool_curves_curves_num_dNew(2)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_lin ==
    mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_4953[
      (2 + 1)
    ])), mc_pool_pool_curves_b_4953)), (mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_4953[
      (3 + 1)
    ])))
  IN
  mc_pool_pool_curves_curves_num_dAdd((mc_pool_pool_curves_quad), (mc_pool_pool_curves_lin))

(*
  @type: ((Int, Int, Int, Int, Int, Bool) => Int);
*)
mc_pool_pool_curves_stableOut(mc_pool_pool_curves_amp_6192, mc_pool_pool_curves_x_6192,
mc_pool_pool_curves_a_6192, mc_pool_pool_curves_b_6192, mc_pool_pool_curves_s_6192,
mc_pool_pool_curves_ofA_6192) ==
  IF mc_pool_pool_curves_x_6192 = 0
  THEN 0
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_lev ==
    mc_pool_pool_curves_leverage(mc_pool_pool_curves_amp_6192)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_d0 ==
    mc_pool_pool_curves_stableD((mc_pool_pool_curves_lev), mc_pool_pool_curves_a_6192,
    mc_pool_pool_curves_b_6192)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_r ==
    IF mc_pool_pool_curves_ofA_6192
    THEN mc_pool_pool_curves_a_6192
    ELSE mc_pool_pool_curves_b_6192
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_d1 ==
    IF mc_pool_pool_curves_r < mc_pool_pool_curves_x_6192
    THEN mc_pool_pool_curves_curves_num_NONE
    ELSE mc_pool_pool_curves_stableD((mc_pool_pool_curves_lev), (mc_pool_pool_curves_r
      - mc_pool_pool_curves_x_6192), (IF mc_pool_pool_curves_ofA_6192
    THEN mc_pool_pool_curves_b_6192
    ELSE mc_pool_pool_curves_a_6192))
  IN
  mc_pool_pool_curves_curves_num_pCeilInt((mc_pool_pool_curves_curves_num_pDiv((mc_pool_pool_curves_curves_num_pMul((mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_curves_num_pNew((mc_pool_pool_curves_d0))),
  (mc_pool_pool_curves_curves_num_pNew((mc_pool_pool_curves_d1))))), (mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_s_6192)))),
  (mc_pool_pool_curves_curves_num_pNew((mc_pool_pool_curves_d0))))))

(*
  @type: ((Int) => Int);
*)
mc_pool_pool_curves_curves_num_pSqrt(mc_pool_pool_curves_curves_num_x_3502) ==
  IF mc_pool_pool_curves_curves_num_x_3502 < 0
    \/ mc_pool_pool_curves_curves_num_x_3502
      > mc_pool_pool_curves_curves_num_M128
        * mc_pool_pool_curves_curves_num_PONE
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_curves_num_x_3502 = 0
  THEN 0
  ELSE LET (*
    @type: ((<<Int, Bool>>, Int) => <<Int, Bool>>);
  *)
  __QUINT_LAMBDA41(mc_pool_pool_curves_curves_num_acc_3496, mc_pool_pool_curves_curves_num_i_3496) ==
    IF mc_pool_pool_curves_curves_num_acc_3496[2]
      \/ mc_pool_pool_curves_curves_num_acc_3496[1] < 0
    THEN mc_pool_pool_curves_curves_num_acc_3496
    ELSE LET (*
      @type: (() => Int);
    *)
    mc_pool_pool_curves_curves_num_g ==
      mc_pool_pool_curves_curves_num_pDiv((mc_pool_pool_curves_curves_num_dAdd(mc_pool_pool_curves_curves_num_acc_3496[
        1
      ], (mc_pool_pool_curves_curves_num_pDiv(mc_pool_pool_curves_curves_num_x_3502,
      mc_pool_pool_curves_curves_num_acc_3496[1])))), (2
        * mc_pool_pool_curves_curves_num_PONE))
    IN
    <<
      (mc_pool_pool_curves_curves_num_g), (mc_pool_pool_curves_curves_num_g >= 0
        /\ mc_pool_pool_curves_curves_num_hi((mc_pool_pool_curves_curves_num_g
          - mc_pool_pool_curves_curves_num_acc_3496[1]), (mc_pool_pool_curves_curves_num_acc_3496[
          1
        ]
          - mc_pool_pool_curves_curves_num_g))
          < mc_pool_pool_curves_curves_num_SNAP)
    >>
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA41, <<
    (mc_pool_pool_curves_curves_num_pDiv((mc_pool_pool_curves_curves_num_x_3502
      + mc_pool_pool_curves_curves_num_PONE), (2
      * mc_pool_pool_curves_curves_num_PONE))), FALSE
  >>, (mc_pool_pool_curves_curves_num_NEWTON))[
    1
  ]

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_pool_pool_curves_hostFee(mc_pool_pool_curves_fs_4216, mc_pool_pool_curves_x_4216) ==
  mc_pool_pool_curves_fee(mc_pool_pool_curves_x_4216, mc_pool_pool_curves_fs_4216[
    (6 + 1)
  ], mc_pool_pool_curves_fs_4216[(7 + 1)])

(*
  @type: ((Int, Seq(Int), Int, Int, Int, Int, Bool) => { a: Int, b: Int });
*)
mc_pool_pool_curves_bothSides(mc_pool_pool_curves_kind_5949, mc_pool_pool_curves_p_5949,
mc_pool_pool_curves_pt_5949, mc_pool_pool_curves_s_5949, mc_pool_pool_curves_a_5949,
mc_pool_pool_curves_b_5949, mc_pool_pool_curves_up_5949) ==
  IF mc_pool_pool_curves_kind_5949 = mc_pool_pool_curves_LINEAR
  THEN mc_pool_pool_curves_NOPAIR
  ELSE IF mc_pool_pool_curves_kind_5949 = mc_pool_pool_curves_PRICE
  THEN LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_n ==
    mc_pool_pool_curves_curves_num_mul128(mc_pool_pool_curves_pt_5949, (mc_pool_pool_curves_priceValue(mc_pool_pool_curves_p_5949[
      (0 + 1)
    ], mc_pool_pool_curves_a_5949, mc_pool_pool_curves_b_5949)))
  IN
  IF mc_pool_pool_curves_up_5949
  THEN mc_pool_pool_curves_pair((mc_pool_pool_curves_curves_num_strictCeilDiv((mc_pool_pool_curves_n),
  mc_pool_pool_curves_s_5949)), (mc_pool_pool_curves_curves_num_strictCeilDiv((mc_pool_pool_curves_curves_num_strictCeilDiv((mc_pool_pool_curves_n),
  mc_pool_pool_curves_p_5949[(0 + 1)])), mc_pool_pool_curves_s_5949)))
  ELSE mc_pool_pool_curves_pair((mc_pool_pool_curves_curves_num_div128((mc_pool_pool_curves_n),
  mc_pool_pool_curves_s_5949)), (mc_pool_pool_curves_curves_num_div128((mc_pool_pool_curves_curves_num_div128((mc_pool_pool_curves_n),
  mc_pool_pool_curves_p_5949[(0 + 1)])), mc_pool_pool_curves_s_5949)))
  ELSE mc_pool_pool_curves_pair((mc_pool_pool_curves_share(mc_pool_pool_curves_pt_5949,
  mc_pool_pool_curves_s_5949, mc_pool_pool_curves_a_5949, mc_pool_pool_curves_up_5949)),
  (mc_pool_pool_curves_share(mc_pool_pool_curves_pt_5949, mc_pool_pool_curves_s_5949,
  (IF mc_pool_pool_curves_kind_5949 = mc_pool_pool_curves_OFFSET
  THEN mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_b_5949, mc_pool_pool_curves_p_5949[
    (0 + 1)
  ])
  ELSE mc_pool_pool_curves_b_5949), mc_pool_pool_curves_up_5949)))

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_pool_pool_curves_withdrawFee(mc_pool_pool_curves_fs_4200, mc_pool_pool_curves_x_4200) ==
  mc_pool_pool_curves_fee(mc_pool_pool_curves_x_4200, mc_pool_pool_curves_fs_4200[
    (4 + 1)
  ], mc_pool_pool_curves_fs_4200[(5 + 1)])

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_stableShare(mc_pool_pool_curves_d0_6080, mc_pool_pool_curves_d1_6080,
mc_pool_pool_curves_s_6080) ==
  mc_pool_pool_curves_curves_num_pDiv((mc_pool_pool_curves_curves_num_pMul((mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_d1_6080)),
  (mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_d0_6080)))), (mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_s_6080)))),
  (mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_d0_6080)))

(*
  @type: ((Seq(Int), Int, Int, Int) => Int);
*)
mc_props_props_curves_linSoldOut(mc_props_props_curves_p_5070, mc_props_props_curves_a_5070,
mc_props_props_curves_b0_5070, mc_props_props_curves_rd_5070) ==
  mc_props_props_curves_curves_num_dInt((mc_props_props_curves_curves_num_dCeil((mc_props_props_curves_curves_num_dSub((mc_props_props_curves_linIntegral(mc_props_props_curves_p_5070,
  (mc_props_props_curves_curves_num_dAdd(mc_props_props_curves_b0_5070, (mc_props_props_curves_curves_num_dNew(mc_props_props_curves_rd_5070)))))),
  mc_props_props_curves_a_5070)))))

(*
  @type: ((Seq(Int), Int, Bool) => Int);
*)
mc_props_props_curves_linPosition(mc_props_props_curves_p_5048, mc_props_props_curves_a_5048,
mc_props_props_curves_up_5048) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_kn ==
    mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_5048[
      (0 + 1)
    ])), (mc_props_props_curves_curves_num_dNew(1)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_kd ==
    mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_5048[
      (1 + 1)
    ])), (mc_props_props_curves_curves_num_dNew(2)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_en ==
    mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_5048[(2 + 1)])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_ed ==
    mc_props_props_curves_curves_num_dNew(mc_props_props_curves_p_5048[(3 + 1)])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_fourKA ==
    mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_kn),
    (mc_props_props_curves_curves_num_dNew(4)))), mc_props_props_curves_a_5048)),
    (mc_props_props_curves_kd))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_s2 ==
    mc_props_props_curves_curves_num_dAdd((mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_en),
    (mc_props_props_curves_en))), (mc_props_props_curves_ed))), (mc_props_props_curves_ed))),
    (mc_props_props_curves_fourKA))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_s ==
    mc_props_props_curves_curves_num_dSqrt((mc_props_props_curves_s2), mc_props_props_curves_up_5048)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_e ==
    mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_en), (mc_props_props_curves_ed))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_n ==
    IF mc_props_props_curves_s < 0 \/ mc_props_props_curves_e < 0
    THEN mc_props_props_curves_curves_num_NONE
    ELSE mc_props_props_curves_curves_num_hi(0, (mc_props_props_curves_s
      - mc_props_props_curves_e))
  IN
  mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dDiv((mc_props_props_curves_curves_num_dMul((mc_props_props_curves_n),
  (mc_props_props_curves_kd))), (mc_props_props_curves_kn))), (mc_props_props_curves_curves_num_dNew(2)))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => { dst: Int, src: Int });
*)
mc_props_netQuote(mc_props_w_13207, mc_props_c_13207, mc_props_q_13207, mc_props_o_13207) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_fees ==
    mc_props_props_curves_tradeFee(mc_props_q_13207["fees"], mc_props_c_13207[
      "ar"
    ][
      (0 + 1)
    ])
      + mc_props_props_curves_ownerFee(mc_props_q_13207["fees"], mc_props_c_13207[
        "ar"
      ][
        (0 + 1)
      ])
  IN
  [src |->
      mc_props_gain(mc_props_w_13207, mc_props_o_13207, mc_props_c_13207["ac"][
        (4 + 1)
      ])
        - mc_props_fees,
    dst |->
      mc_props_loss(mc_props_w_13207, mc_props_o_13207, mc_props_c_13207["ac"][
        (5 + 1)
      ])]

(*
  @type: ((Int, Seq(Int)) => Bool);
*)
mc_pool_pool_curves_validParams(mc_pool_pool_curves_kind_4068, mc_pool_pool_curves_p_4068) ==
  IF mc_pool_pool_curves_kind_4068 = mc_pool_pool_curves_PRICE
    \/ mc_pool_pool_curves_kind_4068 = mc_pool_pool_curves_OFFSET
  THEN mc_pool_pool_curves_p_4068[(0 + 1)] /= 0
  ELSE IF mc_pool_pool_curves_kind_4068 = mc_pool_pool_curves_LINEAR
  THEN mc_pool_pool_curves_p_4068[(0 + 1)] /= 0
    /\ mc_pool_pool_curves_p_4068[(1 + 1)] /= 0
    /\ mc_pool_pool_curves_p_4068[(3 + 1)] /= 0
    /\ mc_pool_pool_curves_slopeRepresentable(mc_pool_pool_curves_p_4068[
      (0 + 1)
    ], mc_pool_pool_curves_p_4068[(1 + 1)])
  ELSE TRUE

(*
  @type: ((Seq(Int), Int, Bool) => Int);
*)
mc_pool_pool_curves_linPosition(mc_pool_pool_curves_p_5048, mc_pool_pool_curves_a_5048,
mc_pool_pool_curves_up_5048) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_kn ==
    mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_5048[
      (0 + 1)
    ])), (mc_pool_pool_curves_curves_num_dNew(1)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_kd ==
    mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_5048[
      (1 + 1)
    ])), (mc_pool_pool_curves_curves_num_dNew(2)))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_en ==
    mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_5048[(2 + 1)])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_ed ==
    mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_p_5048[(3 + 1)])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_fourKA ==
    mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_kn),
    (mc_pool_pool_curves_curves_num_dNew(4)))), mc_pool_pool_curves_a_5048)), (mc_pool_pool_curves_kd))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_s2 ==
    mc_pool_pool_curves_curves_num_dAdd((mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_en),
    (mc_pool_pool_curves_en))), (mc_pool_pool_curves_ed))), (mc_pool_pool_curves_ed))),
    (mc_pool_pool_curves_fourKA))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_s ==
    mc_pool_pool_curves_curves_num_dSqrt((mc_pool_pool_curves_s2), mc_pool_pool_curves_up_5048)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_e ==
    mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_en), (mc_pool_pool_curves_ed))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_n ==
    IF mc_pool_pool_curves_s < 0 \/ mc_pool_pool_curves_e < 0
    THEN mc_pool_pool_curves_curves_num_NONE
    ELSE mc_pool_pool_curves_curves_num_hi(0, (mc_pool_pool_curves_s
      - mc_pool_pool_curves_e))
  IN
  mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dDiv((mc_pool_pool_curves_curves_num_dMul((mc_pool_pool_curves_n),
  (mc_pool_pool_curves_kd))), (mc_pool_pool_curves_kn))), (mc_pool_pool_curves_curves_num_dNew(2)))

(*
  @type: ((Seq(Int), Int, Int, Int) => Int);
*)
mc_pool_pool_curves_linSoldOut(mc_pool_pool_curves_p_5070, mc_pool_pool_curves_a_5070,
mc_pool_pool_curves_b0_5070, mc_pool_pool_curves_rd_5070) ==
  mc_pool_pool_curves_curves_num_dInt((mc_pool_pool_curves_curves_num_dCeil((mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_linIntegral(mc_pool_pool_curves_p_5070,
  (mc_pool_pool_curves_curves_num_dAdd(mc_pool_pool_curves_b0_5070, (mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_rd_5070)))))),
  mc_pool_pool_curves_a_5070)))))

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_productOut(mc_pool_pool_curves_x_6060, mc_pool_pool_curves_r_6060,
mc_pool_pool_curves_s_6060) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_root ==
    mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_curves_num_PONE), (mc_pool_pool_curves_curves_num_pSqrt((mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_curves_num_PONE),
    (mc_pool_pool_curves_curves_num_pDiv((mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_x_6060)),
    (mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_r_6060)))))))))
  IN
  mc_pool_pool_curves_curves_num_pCeilInt((mc_pool_pool_curves_curves_num_pMul((mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_s_6060)),
  (mc_pool_pool_curves_root))))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { a: Int, b: Int });
*)
mc_pool_depositPair(mc_pool_w_9219, mc_pool_c_9219, mc_pool_q_9219) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_s ==
    IF mc_pool_pool_ledger_sup(mc_pool_w_9219, mc_pool_c_9219["ac"][(7 + 1)])
      = 0
    THEN mc_pool_INITIAL
    ELSE mc_pool_pool_ledger_sup(mc_pool_w_9219, mc_pool_c_9219["ac"][(7 + 1)])
  IN
  mc_pool_pool_curves_bothSides(mc_pool_q_9219["ck"], mc_pool_q_9219["cp"], (mc_pool_depositPoolTokens(mc_pool_w_9219,
  mc_pool_c_9219)), (mc_pool_s), (mc_pool_pool_ledger_amt(mc_pool_w_9219, mc_pool_c_9219[
    "ac"
  ][
    (5 + 1)
  ])), (mc_pool_pool_ledger_amt(mc_pool_w_9219, mc_pool_c_9219["ac"][(6 + 1)])),
  TRUE)

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, Str, Str, Int) => Int);
*)
mc_pool_exitFee(mc_pool_q_9515, mc_pool_source_9515, mc_pool_feeAccount_9515, mc_pool_pt_9515) ==
  IF mc_pool_source_9515 = mc_pool_feeAccount_9515
  THEN 0
  ELSE mc_pool_pool_curves_withdrawFee(mc_pool_q_9515["fees"], mc_pool_pt_9515)

(*
  @type: ((Int, Int, Int, Int, Int, Bool) => Int);
*)
mc_pool_pool_curves_stableIn(mc_pool_pool_curves_amp_6128, mc_pool_pool_curves_x_6128,
mc_pool_pool_curves_a_6128, mc_pool_pool_curves_b_6128, mc_pool_pool_curves_s_6128,
mc_pool_pool_curves_ofA_6128) ==
  IF mc_pool_pool_curves_x_6128 = 0
  THEN 0
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_lev ==
    mc_pool_pool_curves_leverage(mc_pool_pool_curves_amp_6128)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_d1 ==
    IF mc_pool_pool_curves_ofA_6128
    THEN mc_pool_pool_curves_stableD((mc_pool_pool_curves_lev), (mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_a_6128,
    mc_pool_pool_curves_x_6128)), mc_pool_pool_curves_b_6128)
    ELSE mc_pool_pool_curves_stableD((mc_pool_pool_curves_lev), (mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_b_6128,
    mc_pool_pool_curves_x_6128)), mc_pool_pool_curves_a_6128)
  IN
  mc_pool_pool_curves_curves_num_pFloorInt((mc_pool_pool_curves_stableShare((mc_pool_pool_curves_stableD((mc_pool_pool_curves_lev),
  mc_pool_pool_curves_a_6128, mc_pool_pool_curves_b_6128)), (mc_pool_pool_curves_d1),
  mc_pool_pool_curves_s_6128)))

(*
  @type: ((Int, Int, Int) => Int);
*)
mc_pool_pool_curves_productIn(mc_pool_pool_curves_x_6034, mc_pool_pool_curves_r_6034,
mc_pool_pool_curves_s_6034) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_root ==
    mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_curves_num_pSqrt((mc_pool_pool_curves_curves_num_dAdd((mc_pool_pool_curves_curves_num_PONE),
    (mc_pool_pool_curves_curves_num_pDiv((mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_x_6034)),
    (mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_r_6034)))))))), (mc_pool_pool_curves_curves_num_PONE))
  IN
  mc_pool_pool_curves_curves_num_pFloorInt((mc_pool_pool_curves_curves_num_pMul((mc_pool_pool_curves_curves_num_pNew(mc_pool_pool_curves_s_6034)),
  (mc_pool_pool_curves_root))))

(*
  @type: ((Seq(Int), Int) => Int);
*)
mc_pool_pool_curves_halfFee(mc_pool_pool_curves_fs_6347, mc_pool_pool_curves_x_6347) ==
  mc_pool_pool_curves_tradeFee(mc_pool_pool_curves_fs_6347, (mc_pool_pool_curves_curves_num_hi(1,
  (mc_pool_pool_curves_x_6347 \div 2))))

(*
  @type: ((Seq(Int), Int, Int, Int) => Bool);
*)
mc_props_props_curves_linBuyIsCapped(mc_props_props_curves_p_5204, mc_props_props_curves_x_5204,
mc_props_props_curves_ra_5204, mc_props_props_curves_rb_5204) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_props_curves_whole ==
    mc_props_props_curves_linSoldOut(mc_props_props_curves_p_5204, (mc_props_props_curves_curves_num_dNew(mc_props_props_curves_ra_5204)),
    (mc_props_props_curves_linPosition(mc_props_props_curves_p_5204, (mc_props_props_curves_curves_num_dNew(mc_props_props_curves_ra_5204)),
    TRUE)), mc_props_props_curves_rb_5204)
  IN
  mc_props_props_curves_whole >= 0
    /\ mc_props_props_curves_whole <= mc_props_props_curves_x_5204

(*
  @type: ((Seq(Int), Int, Int) => Bool);
*)
mc_props_props_curves_linSellIsCapped(mc_props_props_curves_p_5222, mc_props_props_curves_x_5222,
mc_props_props_curves_ra_5222) ==
  mc_props_props_curves_curves_num_dNew(mc_props_props_curves_x_5222)
    > mc_props_props_curves_linPosition(mc_props_props_curves_p_5222, (mc_props_props_curves_curves_num_dNew(mc_props_props_curves_ra_5222)),
    TRUE)

(*
  @type: (({ a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, Int, Int) => Bool);
*)
mc_props_drainRounding(mc_props_q_13567, mc_props_a_13567, mc_props_taken_13567) ==
  LET (*
    @type: (() => Int);
  *)
  mc_props_b0 ==
    mc_props_props_curves_linPosition(mc_props_q_13567["cp"], (mc_props_props_num_dNew(mc_props_a_13567)),
    TRUE)
  IN
  mc_props_b0 >= 0
    /\ mc_props_taken_13567 = mc_props_props_num_dInt((mc_props_b0))
    /\ mc_props_taken_13567 * mc_props_props_num_ONE < mc_props_b0

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
*)
mc_pool_initConds(mc_pool_w_11261, mc_pool_c_11261) ==
  LET (*
    @type: (() => { ck: Int, cp: Seq(Int), fees: Seq(Int) });
  *)
  mc_pool_o == mc_pool_offer(mc_pool_c_11261)
  IN
  LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_ta ==
    mc_pool_pool_ledger_tok(mc_pool_w_11261, mc_pool_c_11261["ac"][(2 + 1)])
  IN
  LET (*
    @type: (() => { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int });
  *)
  mc_pool_tb ==
    mc_pool_pool_ledger_tok(mc_pool_w_11261, mc_pool_c_11261["ac"][(3 + 1)])
  IN
  LET (*
    @type: (() => { auth: Str, frz: Str, prog: Str, st: Int, sup: Int });
  *)
  mc_pool_m ==
    mc_pool_pool_ledger_mint(mc_pool_w_11261, mc_pool_c_11261["ac"][(4 + 1)])
  IN
  LET (*
    @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
  *)
  mc_pool_q ==
    mc_pool_pool_ledger_pool(mc_pool_w_11261, mc_pool_c_11261["ac"][(0 + 1)])
  IN
  LET (*@type: (() => Set(Str)); *) mc_pool_unsound == {"P04"} IN
  ((((<<
    (mc_pool_when((mc_pool_pool_ledger_readable((mc_pool_q))), { "P04", "P05" },
    {(mc_pool_eInUse)})), (mc_pool_when(((mc_pool_q)["prog"] /= "PROG"), (mc_pool_unsound),
    { (mc_pool_eIllegalWrite), (mc_pool_pool_ledger_builtin(7)) })), (mc_pool_when(((mc_pool_q)[
      "len"
    ]
      /= mc_pool_pool_ledger_LENGTH), { "P04", "P06" }, { (mc_pool_pool_ledger_builtin(4)),
      (mc_pool_pool_ledger_PANIC),
      (mc_pool_eIllegalWrite) })), (mc_pool_when((mc_pool_c_11261["ac"][(1 + 1)]
      /= mc_pool_pool_ledger_authorityOf(mc_pool_c_11261["ac"][(0 + 1)])), (mc_pool_unsound),
    {(mc_pool_eAuthority)})), (mc_pool_when((mc_pool_c_11261["ac"][(7 + 1)]
      /= "TOK"), (mc_pool_unsound), { (mc_pool_eTokenProgram),
      (mc_pool_pool_ledger_builtin(7)) })), (mc_pool_when(((mc_pool_ta)["own"]
      /= mc_pool_c_11261["ac"][(1 + 1)]), (mc_pool_unsound), {(mc_pool_eOwner)})),
    (mc_pool_when(((mc_pool_tb)["own"] /= mc_pool_c_11261["ac"][(1 + 1)]), (mc_pool_unsound),
    {(mc_pool_eOwner)})), (mc_pool_when(((mc_pool_pool_ledger_tok(mc_pool_w_11261,
    mc_pool_c_11261["ac"][(6 + 1)]))[
      "own"
    ]
      = mc_pool_c_11261["ac"][(1 + 1)]), (mc_pool_unsound), {(mc_pool_eOutOwner)})),
    (mc_pool_when(((mc_pool_pool_ledger_tok(mc_pool_w_11261, mc_pool_c_11261[
      "ac"
    ][
      (5 + 1)
    ]))[
      "own"
    ]
      = mc_pool_c_11261["ac"][(1 + 1)]), (mc_pool_unsound), {(mc_pool_eOutOwner)})),
    (mc_pool_when(((mc_pool_m)["auth"] /= mc_pool_c_11261["ac"][(1 + 1)]), (mc_pool_unsound),
    {(mc_pool_eOwner)})), (mc_pool_when(((mc_pool_ta)["mint"]
      = (mc_pool_tb)["mint"]), (mc_pool_unsound), {(mc_pool_eRepeated)})), (mc_pool_when((mc_pool_pool_curves_emptySupply((mc_pool_o)[
      "ck"
    ], (mc_pool_ta)["amt"], (mc_pool_tb)["amt"])), (mc_pool_unsound), {(mc_pool_eEmpty)})),
    (mc_pool_when((mc_pool_pool_curves_wrongSupply((mc_pool_o)["ck"], (mc_pool_ta)[
      "amt"
    ])), (mc_pool_unsound), {(mc_pool_eSupply)})), (mc_pool_when(((mc_pool_ta)[
        "dlg"
      ]
        /= ""
      \/ (mc_pool_tb)["dlg"] /= ""), (mc_pool_unsound), {(mc_pool_eDelegate)})),
    (mc_pool_when(((mc_pool_ta)["cls"] /= "" \/ (mc_pool_tb)["cls"] /= ""), (mc_pool_unsound),
    {(mc_pool_eClose)})), (mc_pool_when(((mc_pool_m)["sup"] /= 0), (mc_pool_unsound),
    {(mc_pool_eSupply)})), (mc_pool_when(((mc_pool_m)["frz"] /= ""), (mc_pool_unsound),
    {(mc_pool_eFreeze)})), (mc_pool_when(((mc_pool_pool_ledger_tok(mc_pool_w_11261,
    mc_pool_c_11261["ac"][(5 + 1)]))[
      "mint"
    ]
      /= mc_pool_c_11261["ac"][(4 + 1)]), (mc_pool_unsound), {(mc_pool_ePoolMint)})),
    (mc_pool_when(((mc_pool_pool_ledger_tok(mc_pool_w_11261, mc_pool_c_11261[
      "ac"
    ][
      (6 + 1)
    ]))[
      "mint"
    ]
      /= mc_pool_c_11261["ac"][(4 + 1)]), (mc_pool_unsound), { (mc_pool_ePoolMint),
      3 })), (mc_pool_when((mc_pool_c_11261["con"]["on"]
      /\ (mc_pool_pool_ledger_tok(mc_pool_w_11261, mc_pool_c_11261["ac"][
        (5 + 1)
      ]))[
        "own"
      ]
        /= mc_pool_c_11261["con"]["owner"]), {"P25"}, {(mc_pool_eOwner)})), (mc_pool_when((mc_pool_c_11261[
        "con"
      ][
        "on"
      ]
      /\ Len(LET (*
        @type: ((Seq(Int), Int) => Seq(Int));
      *)
      __QUINT_LAMBDA27(__quint_var16, __QUINT_LAMBDA26) ==
        IF LET (*
          @type: ((Int) => Bool);
        *)
        __QUINT_LAMBDA25(mc_pool_k_11130) == mc_pool_k_11130 = (mc_pool_o)["ck"]
        IN
        __QUINT_LAMBDA25(__QUINT_LAMBDA26)
        THEN Append(__quint_var16, __QUINT_LAMBDA26)
        ELSE __quint_var16
      IN
      ApaFoldSeqLeft(__QUINT_LAMBDA27, <<>>, mc_pool_c_11261["con"]["kinds"]))
        = 0), {"P25"}, {(mc_pool_eCurveType)})), (mc_pool_when((mc_pool_c_11261[
        "con"
      ][
        "on"
      ]
      /\ ~(mc_pool_permitted((mc_pool_o)["fees"], mc_pool_c_11261["con"]["fees"]))),
    {"P25"}, {(mc_pool_eFee)})), (mc_pool_when(~(mc_pool_pool_curves_validFees((mc_pool_o)[
      "fees"
    ])), {"P26"}, {(mc_pool_eFee)})), (mc_pool_when(~(mc_pool_pool_curves_validParams((mc_pool_o)[
      "ck"
    ], (mc_pool_o)["cp"])), (mc_pool_unsound), {(mc_pool_eCurve)}))
  >>
    \o mc_pool_tokConds(mc_pool_w_11261, mc_pool_c_11261["ac"][(2 + 1)], mc_pool_c_11261[
      "ac"
    ][
      (7 + 1)
    ], (mc_pool_unsound)))
    \o mc_pool_tokConds(mc_pool_w_11261, mc_pool_c_11261["ac"][(3 + 1)], mc_pool_c_11261[
      "ac"
    ][
      (7 + 1)
    ], (mc_pool_unsound)))
    \o mc_pool_tokConds(mc_pool_w_11261, mc_pool_c_11261["ac"][(5 + 1)], mc_pool_c_11261[
      "ac"
    ][
      (7 + 1)
    ], (mc_pool_unsound)))
    \o mc_pool_tokConds(mc_pool_w_11261, mc_pool_c_11261["ac"][(6 + 1)], mc_pool_c_11261[
      "ac"
    ][
      (7 + 1)
    ], (mc_pool_unsound)))
    \o mc_pool_mintConds(mc_pool_w_11261, mc_pool_c_11261["ac"][(4 + 1)], mc_pool_c_11261[
      "ac"
    ][
      (7 + 1)
    ], (mc_pool_unsound))

(*
  @type: ((Seq(Int), Int, Int, Int) => { dst: Int, src: Int });
*)
mc_pool_pool_curves_linBuy(mc_pool_pool_curves_p_5128, mc_pool_pool_curves_x_5128,
mc_pool_pool_curves_ra_5128, mc_pool_pool_curves_rb_5128) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_a0 ==
    mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_ra_5128)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_b0 ==
    mc_pool_pool_curves_linPosition(mc_pool_pool_curves_p_5128, (mc_pool_pool_curves_a0),
    TRUE)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_whole ==
    mc_pool_pool_curves_linSoldOut(mc_pool_pool_curves_p_5128, (mc_pool_pool_curves_a0),
    (mc_pool_pool_curves_b0), mc_pool_pool_curves_rb_5128)
  IN
  IF mc_pool_pool_curves_b0 < 0
  THEN mc_pool_pool_curves_NOQUOTE
  ELSE IF mc_pool_pool_curves_whole >= 0
    /\ mc_pool_pool_curves_whole <= mc_pool_pool_curves_x_5128
  THEN mc_pool_pool_curves_quote((mc_pool_pool_curves_whole), mc_pool_pool_curves_rb_5128)
  ELSE mc_pool_pool_curves_quote(mc_pool_pool_curves_x_5128, (mc_pool_pool_curves_curves_num_dInt((mc_pool_pool_curves_curves_num_dFloor((mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_linPosition(mc_pool_pool_curves_p_5128,
  (mc_pool_pool_curves_curves_num_dAdd((mc_pool_pool_curves_a0), (mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_x_5128)))),
  FALSE)), (mc_pool_pool_curves_b0))))))))

(*
  @type: ((Seq(Int), Int, Int) => { dst: Int, src: Int });
*)
mc_pool_pool_curves_linSell(mc_pool_pool_curves_p_5173, mc_pool_pool_curves_x_5173,
mc_pool_pool_curves_ra_5173) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_b0 ==
    mc_pool_pool_curves_linPosition(mc_pool_pool_curves_p_5173, (mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_ra_5173)),
    TRUE)
  IN
  IF mc_pool_pool_curves_b0 < 0
  THEN mc_pool_pool_curves_NOQUOTE
  ELSE IF mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_x_5173)
    > mc_pool_pool_curves_b0
  THEN mc_pool_pool_curves_quote((mc_pool_pool_curves_curves_num_dInt((mc_pool_pool_curves_b0))),
  mc_pool_pool_curves_ra_5173)
  ELSE mc_pool_pool_curves_quote(mc_pool_pool_curves_x_5173, (mc_pool_pool_curves_curves_num_dInt((mc_pool_pool_curves_curves_num_dFloor((mc_pool_pool_curves_curves_num_dSub((mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_ra_5173)),
  (mc_pool_pool_curves_linIntegral(mc_pool_pool_curves_p_5173, (mc_pool_pool_curves_curves_num_dCeil((mc_pool_pool_curves_b0
    - mc_pool_pool_curves_curves_num_dNew(mc_pool_pool_curves_x_5173)))))))))))))

(*
  @type: ((Int, Seq(Int), Int, Int, Int, Int, Bool) => Int);
*)
mc_pool_pool_curves_oneSideOut(mc_pool_pool_curves_kind_6332, mc_pool_pool_curves_p_6332,
mc_pool_pool_curves_x_6332, mc_pool_pool_curves_a_6332, mc_pool_pool_curves_b_6332,
mc_pool_pool_curves_s_6332, mc_pool_pool_curves_ofA_6332) ==
  IF mc_pool_pool_curves_x_6332 < 0
    \/ mc_pool_pool_curves_kind_6332 = mc_pool_pool_curves_LINEAR
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_kind_6332 = mc_pool_pool_curves_PRICE
  THEN mc_pool_pool_curves_priceShare(mc_pool_pool_curves_p_6332[(0 + 1)], mc_pool_pool_curves_x_6332,
  mc_pool_pool_curves_a_6332, mc_pool_pool_curves_b_6332, mc_pool_pool_curves_s_6332,
  mc_pool_pool_curves_ofA_6332, TRUE)
  ELSE IF mc_pool_pool_curves_kind_6332 = mc_pool_pool_curves_STABLE
  THEN mc_pool_pool_curves_stableOut(mc_pool_pool_curves_p_6332[(0 + 1)], mc_pool_pool_curves_x_6332,
  mc_pool_pool_curves_a_6332, mc_pool_pool_curves_b_6332, mc_pool_pool_curves_s_6332,
  mc_pool_pool_curves_ofA_6332)
  ELSE mc_pool_pool_curves_productOut(mc_pool_pool_curves_x_6332, (IF mc_pool_pool_curves_ofA_6332
  THEN mc_pool_pool_curves_a_6332
  ELSE IF mc_pool_pool_curves_kind_6332 = mc_pool_pool_curves_OFFSET
  THEN mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_b_6332, mc_pool_pool_curves_p_6332[
    (0 + 1)
  ])
  ELSE mc_pool_pool_curves_b_6332), mc_pool_pool_curves_s_6332)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { conds: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_depositTerms(mc_pool_w_9367, mc_pool_c_9367, mc_pool_q_9367) ==
  LET (*
    @type: (() => { a: Int, b: Int });
  *)
  mc_pool_r ==
    mc_pool_depositPair(mc_pool_w_9367, mc_pool_c_9367, mc_pool_q_9367)
  IN
  IF (mc_pool_r)["a"] < 0
  THEN [conds |-> <<(mc_pool_unquoted(TRUE, (mc_pool_NOQUOTECODES)))>>,
    ops |-> <<>>]
  ELSE [conds |->
      <<
        (mc_pool_when(((mc_pool_r)["a"] > mc_pool_c_9367["ar"][(1 + 1)]
          \/ (mc_pool_r)["b"] > mc_pool_c_9367["ar"][(2 + 1)]), {"P07"}, {(mc_pool_eSlippage)})),
        (mc_pool_when(((mc_pool_r)["a"] = 0 \/ (mc_pool_r)["b"] = 0), { "P22",
          "P20" }, {(mc_pool_eZero)})), (mc_pool_when(((mc_pool_r)["a"]
            > mc_pool_pool_num_M64
          \/ (mc_pool_r)["b"] > mc_pool_pool_num_M64), {"P08"}, {(mc_pool_eConversion)}))
      >>,
    ops |->
      <<
        (mc_pool_pool_ledger_opTransfer(mc_pool_c_9367["ac"][(3 + 1)], mc_pool_c_9367[
          "ac"
        ][
          (5 + 1)
        ], mc_pool_c_9367["ac"][(2 + 1)], (mc_pool_r)["a"])), (mc_pool_pool_ledger_opTransfer(mc_pool_c_9367[
          "ac"
        ][
          (4 + 1)
        ], mc_pool_c_9367["ac"][(6 + 1)], mc_pool_c_9367["ac"][(2 + 1)], (mc_pool_r)[
          "b"
        ])), (mc_pool_pool_ledger_opMint(mc_pool_c_9367["ac"][(7 + 1)], mc_pool_c_9367[
          "ac"
        ][
          (8 + 1)
        ], mc_pool_c_9367["ac"][(1 + 1)], (mc_pool_depositPoolTokens(mc_pool_w_9367,
        mc_pool_c_9367))))
      >>]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { a: Int, b: Int });
*)
mc_pool_withdrawPair(mc_pool_w_9624, mc_pool_c_9624, mc_pool_q_9624) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_f ==
    mc_pool_exitFee(mc_pool_q_9624, mc_pool_c_9624["ac"][(4 + 1)], mc_pool_c_9624[
      "ac"
    ][
      (9 + 1)
    ], mc_pool_c_9624["ar"][(0 + 1)])
  IN
  LET (*
    @type: (() => { a: Int, b: Int });
  *)
  mc_pool_r ==
    mc_pool_pool_curves_bothSides(mc_pool_q_9624["ck"], mc_pool_q_9624["cp"], (mc_pool_pool_num_sub128(mc_pool_c_9624[
      "ar"
    ][
      (0 + 1)
    ], (mc_pool_f))), (mc_pool_pool_ledger_sup(mc_pool_w_9624, mc_pool_c_9624[
      "ac"
    ][
      (3 + 1)
    ])), (mc_pool_pool_ledger_amt(mc_pool_w_9624, mc_pool_c_9624["ac"][(5 + 1)])),
    (mc_pool_pool_ledger_amt(mc_pool_w_9624, mc_pool_c_9624["ac"][(6 + 1)])), FALSE)
  IN
  [a |->
      IF (mc_pool_r)["a"] > mc_pool_pool_num_M64
      THEN (mc_pool_r)["a"]
      ELSE mc_pool_pool_num_lo((mc_pool_r)["a"], (mc_pool_pool_ledger_amt(mc_pool_w_9624,
      mc_pool_c_9624["ac"][(5 + 1)]))),
    b |->
      IF (mc_pool_r)["b"] > mc_pool_pool_num_M64
      THEN (mc_pool_r)["b"]
      ELSE mc_pool_pool_num_lo((mc_pool_r)["b"], (mc_pool_pool_ledger_amt(mc_pool_w_9624,
      mc_pool_c_9624["ac"][(6 + 1)])))]

(*
  @type: ((Int, Seq(Int), Int, Int, Int, Int, Bool) => Int);
*)
mc_pool_pool_curves_oneSideIn(mc_pool_pool_curves_kind_6262, mc_pool_pool_curves_p_6262,
mc_pool_pool_curves_x_6262, mc_pool_pool_curves_a_6262, mc_pool_pool_curves_b_6262,
mc_pool_pool_curves_s_6262, mc_pool_pool_curves_ofA_6262) ==
  IF mc_pool_pool_curves_x_6262 < 0
    \/ mc_pool_pool_curves_kind_6262 = mc_pool_pool_curves_LINEAR
  THEN mc_pool_pool_curves_curves_num_NONE
  ELSE IF mc_pool_pool_curves_kind_6262 = mc_pool_pool_curves_PRICE
  THEN mc_pool_pool_curves_priceShare(mc_pool_pool_curves_p_6262[(0 + 1)], mc_pool_pool_curves_x_6262,
  mc_pool_pool_curves_a_6262, mc_pool_pool_curves_b_6262, mc_pool_pool_curves_s_6262,
  mc_pool_pool_curves_ofA_6262, FALSE)
  ELSE IF mc_pool_pool_curves_kind_6262 = mc_pool_pool_curves_STABLE
  THEN mc_pool_pool_curves_stableIn(mc_pool_pool_curves_p_6262[(0 + 1)], mc_pool_pool_curves_x_6262,
  mc_pool_pool_curves_a_6262, mc_pool_pool_curves_b_6262, mc_pool_pool_curves_s_6262,
  mc_pool_pool_curves_ofA_6262)
  ELSE mc_pool_pool_curves_productIn(mc_pool_pool_curves_x_6262, (IF mc_pool_pool_curves_ofA_6262
  THEN mc_pool_pool_curves_a_6262
  ELSE IF mc_pool_pool_curves_kind_6262 = mc_pool_pool_curves_OFFSET
  THEN mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_b_6262, mc_pool_pool_curves_p_6262[
    (0 + 1)
  ])
  ELSE mc_pool_pool_curves_b_6262), mc_pool_pool_curves_s_6262)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Set({ p: Str, why: Str }));
*)
mc_props_judgeDifference(mc_props_w_14492, mc_props_c_14492, mc_props_q_14492, mc_props_exp_14492,
mc_props_o_14492) ==
  IF mc_props_o_14492["next"] = mc_props_exp_14492
  THEN {}
  ELSE IF mc_props_props_pool_isInit(mc_props_c_14492["op"])
  THEN (mc_props_flag((mc_props_o_14492["alien"]
    \/ mc_props_props_ledger_pool(mc_props_o_14492["next"], mc_props_c_14492[
      "ac"
    ][
      (0 + 1)
    ])
      /= mc_props_props_ledger_pool(mc_props_exp_14492, mc_props_c_14492["ac"][
        (0 + 1)
      ])), { "P05", "P06" }, "recorded another pool than asked for")
    \union mc_props_flag((mc_props_props_ledger_sup(mc_props_o_14492["next"], mc_props_c_14492[
        "ac"
      ][
        (4 + 1)
      ])
        /= mc_props_props_ledger_sup(mc_props_exp_14492, mc_props_c_14492["ac"][
          (4 + 1)
        ])
      \/ mc_props_o_14492["next"]["toks"] /= mc_props_exp_14492["toks"]), {"P05"},
    "issued something else than the initial supply"))
    \union mc_props_flag(TRUE, {"P05"}, "creation had another effect than specified")
  ELSE LET (*
    @type: (() => Bool);
  *)
  mc_props_reserves ==
    mc_props_props_ledger_amt(mc_props_o_14492["next"], mc_props_q_14492["a"])
        /= mc_props_props_ledger_amt(mc_props_exp_14492, mc_props_q_14492["a"])
      \/ mc_props_props_ledger_amt(mc_props_o_14492["next"], mc_props_q_14492[
        "b"
      ])
        /= mc_props_props_ledger_amt(mc_props_exp_14492, mc_props_q_14492["b"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_generous ==
    (mc_props_props_ledger_amt(mc_props_o_14492["next"], mc_props_q_14492["a"])
          < mc_props_props_ledger_amt(mc_props_exp_14492, mc_props_q_14492["a"])
        /\ mc_props_props_ledger_amt(mc_props_o_14492["next"], mc_props_q_14492[
          "b"
        ])
          <= mc_props_props_ledger_amt(mc_props_exp_14492, mc_props_q_14492["b"]))
      \/ (mc_props_props_ledger_amt(mc_props_o_14492["next"], mc_props_q_14492[
          "a"
        ])
          <= mc_props_props_ledger_amt(mc_props_exp_14492, mc_props_q_14492["a"])
        /\ mc_props_props_ledger_amt(mc_props_o_14492["next"], mc_props_q_14492[
          "b"
        ])
          < mc_props_props_ledger_amt(mc_props_exp_14492, mc_props_q_14492["b"]))
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_lps ==
    mc_props_props_ledger_sup(mc_props_o_14492["next"], mc_props_q_14492["lp"])
      /= mc_props_props_ledger_sup(mc_props_exp_14492, mc_props_q_14492["lp"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_fees ==
    mc_props_props_ledger_amt(mc_props_o_14492["next"], mc_props_q_14492["fee"])
      /= mc_props_props_ledger_amt(mc_props_exp_14492, mc_props_q_14492["fee"])
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_records ==
    mc_props_o_14492["next"]["pools"] /= mc_props_exp_14492["pools"]
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_lin ==
    mc_props_c_14492["op"] = mc_props_props_pool_SWAP
      /\ mc_props_q_14492["ck"] = mc_props_props_curves_LINEAR
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_buy == mc_props_c_14492["ac"][(4 + 1)] = mc_props_q_14492["a"]
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_capped ==
    mc_props_lin
      /\ (IF mc_props_buy
      THEN mc_props_props_curves_linBuyIsCapped(mc_props_q_14492["cp"], mc_props_c_14492[
        "ar"
      ][
        (0 + 1)
      ], (mc_props_props_ledger_amt(mc_props_w_14492, mc_props_q_14492["a"])), (mc_props_props_ledger_amt(mc_props_w_14492,
      mc_props_q_14492["b"])))
      ELSE mc_props_props_curves_linSellIsCapped(mc_props_q_14492["cp"], mc_props_c_14492[
        "ar"
      ][
        (0 + 1)
      ], (mc_props_props_ledger_amt(mc_props_w_14492, mc_props_q_14492["a"]))))
  IN
  ((((((((((mc_props_flag((mc_props_reserves), (mc_props_amountProps(mc_props_c_14492,
  mc_props_q_14492)), "the reserves moved by other amounts than specified")
    \union mc_props_flag(((mc_props_reserves
        /\ mc_props_c_14492["op"] = mc_props_props_pool_SWAP)
      /\ mc_props_hasFees(mc_props_q_14492)), {"P18"}, "the trade did not charge the specified fees"))
    \union mc_props_flag((((mc_props_reserves /\ mc_props_lin)
        /\ mc_props_generous)
      /\ mc_props_buy), {"P12"}, "cheaper than the published procedure"))
    \union mc_props_flag((((mc_props_reserves /\ mc_props_lin)
        /\ mc_props_generous)
      /\ ~mc_props_buy), {"P13"}, "dearer than the published procedure"))
    \union mc_props_flag(((mc_props_reserves /\ mc_props_lin)
      /\ mc_props_generous), {"P16"}, "more generous than the published procedure"))
    \union mc_props_flag((mc_props_reserves /\ mc_props_capped), {"P15"}, "a capped trade moved other amounts than specified"))
    \union mc_props_flag(((mc_props_reserves \/ mc_props_lps)
      /\ mc_props_overlapping(mc_props_c_14492)), {"P03"}, "overlapping roles moved the pool by other amounts"))
    \union mc_props_flag(((mc_props_lps \/ mc_props_fees)
      /\ mc_props_c_14492["op"] = mc_props_props_pool_SWAP), {"P18"}, "the owner fee was not issued as specified"))
    \union mc_props_flag((mc_props_fees
      /\ (mc_props_c_14492["op"] = mc_props_props_pool_WITHDRAW
        \/ mc_props_c_14492["op"] = mc_props_props_pool_WITHDRAW1)), {"P19"}, "the withdrawal fee differs"))
    \union mc_props_flag((mc_props_lps
      /\ mc_props_c_14492["op"] /= mc_props_props_pool_SWAP), (mc_props_amountProps(mc_props_c_14492,
    mc_props_q_14492)), "another amount of pool tokens than specified"))
    \union mc_props_flag((mc_props_records), { "P05", "P08" }, "a recorded pool changed"))
    \union (mc_props_flag(~(((mc_props_reserves \/ mc_props_lps)
        \/ mc_props_fees)
      \/ mc_props_records), {"P08"}, "another account changed than specified")
      \union mc_props_flag(((~(((mc_props_reserves \/ mc_props_lps)
              \/ mc_props_fees)
            \/ mc_props_records)
          /\ mc_props_c_14492["op"] = mc_props_props_pool_SWAP)
        /\ Len(mc_props_c_14492["ac"]) > 10), {"P18"}, "the host was not paid as specified"))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Set({ p: Str, why: Str }));
*)
mc_props_judgeQuote(mc_props_w_13536, mc_props_c_13536, mc_props_q_13536, mc_props_o_13536) ==
  LET (*
    @type: (() => { dst: Int, src: Int });
  *)
  mc_props_n ==
    mc_props_netQuote(mc_props_w_13536, mc_props_c_13536, mc_props_q_13536, mc_props_o_13536)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_x ==
    (mc_props_c_13536["ar"][(0 + 1)]
      - mc_props_props_curves_tradeFee(mc_props_q_13536["fees"], mc_props_c_13536[
        "ar"
      ][
        (0 + 1)
      ]))
      - mc_props_props_curves_ownerFee(mc_props_q_13536["fees"], mc_props_c_13536[
        "ar"
      ][
        (0 + 1)
      ])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_rs ==
    mc_props_props_ledger_amt(mc_props_w_13536, mc_props_c_13536["ac"][(4 + 1)])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_rd ==
    mc_props_props_ledger_amt(mc_props_w_13536, mc_props_c_13536["ac"][(5 + 1)])
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_props_aToB == mc_props_c_13536["ac"][(4 + 1)] = mc_props_q_13536["a"]
  IN
  IF mc_props_q_13536["ck"] = mc_props_props_curves_PRICE
  THEN mc_props_flag(~(mc_props_props_curves_pricePromise(mc_props_q_13536["cp"][
    (0 + 1)
  ], (mc_props_x), (mc_props_aToB), (mc_props_n))), {"P09"}, "not the configured price")
  ELSE IF mc_props_q_13536["ck"] = mc_props_props_curves_PRODUCT
  THEN mc_props_flag(~(mc_props_props_curves_productPromise((mc_props_x), (mc_props_rs),
  (mc_props_rd), (mc_props_n))), {"P10"}, "not the best fair product price")
  ELSE IF mc_props_q_13536["ck"] = mc_props_props_curves_OFFSET
  THEN mc_props_flag(~(mc_props_props_curves_productPromise((mc_props_x), (IF mc_props_aToB
  THEN mc_props_rs
  ELSE mc_props_rs + mc_props_q_13536["cp"][(0 + 1)]), (IF mc_props_aToB
  THEN mc_props_rd + mc_props_q_13536["cp"][(0 + 1)]
  ELSE mc_props_rd), (mc_props_n))), {"P10"}, "not the best fair product price")
  ELSE IF mc_props_q_13536["ck"] = mc_props_props_curves_STABLE
  THEN LET (*
    @type: (() => Int);
  *)
  mc_props_lev ==
    mc_props_props_curves_leverage(mc_props_q_13536["cp"][(0 + 1)])
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_d0 ==
    mc_props_props_curves_stableD((mc_props_lev), (mc_props_rs), (mc_props_rd))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_props_d1 ==
    mc_props_props_curves_stableD((mc_props_lev), (mc_props_rs
      + (mc_props_n)["src"]), (mc_props_rd - (mc_props_n)["dst"] + 1))
  IN
  mc_props_flag(((mc_props_n)["src"] /= mc_props_x), {"P11"}, "a stable swap took another amount than offered")
    \union mc_props_flag(((mc_props_d0 >= 0 /\ mc_props_d1 >= 0)
      /\ mc_props_d1 < mc_props_d0 - 1), {"P11"}, "the stable invariant shrank")
  ELSE IF mc_props_aToB
  THEN mc_props_flag(~(mc_props_props_curves_linBuyPromise(mc_props_q_13536[
    "cp"
  ], (mc_props_rs), (mc_props_n)["src"], (mc_props_n)["dst"], (IF (mc_props_n)[
    "dst"
  ]
    = mc_props_rd
  THEN 1
  ELSE 0))), {"P12"}, "sold below the price integral")
    \union mc_props_flag(((mc_props_n)["src"] > mc_props_x), {"P14"}, "charged more than offered")
  ELSE IF (mc_props_n)["dst"] < mc_props_rd
  THEN mc_props_flag(~(mc_props_props_curves_linSellPromise(mc_props_q_13536[
    "cp"
  ], (mc_props_rd), (mc_props_n)["src"], (mc_props_n)["dst"])), {"P13"}, "bought back above the price integral")
    \union mc_props_flag(((mc_props_n)["src"] /= mc_props_x), { "P14", "P15" }, "a sale that was not capped took another amount than offered")
  ELSE (mc_props_flag((~(mc_props_props_curves_linCovers(mc_props_q_13536["cp"],
    (mc_props_rd), (mc_props_n)["src"]))
    /\ ~(mc_props_drainRounding(mc_props_q_13536, (mc_props_rd), (mc_props_n)[
      "src"
    ]))), {"P15"}, "paid out all collateral for fewer tokens than cover it")
    \union mc_props_flag((~(mc_props_props_curves_linCovers(mc_props_q_13536[
        "cp"
      ], (mc_props_rd), (mc_props_n)["src"]))
      /\ mc_props_drainRounding(mc_props_q_13536, (mc_props_rd), (mc_props_n)[
        "src"
      ])), {"P15"}, "KNOWN drain-rounding"))
    \union mc_props_flag(((mc_props_n)["src"] > mc_props_x), {"P15"}, "took more tokens than offered")

(*
  @type: ((Int, Seq(Int), Int, Int, Int, Bool) => { dst: Int, src: Int });
*)
mc_pool_pool_curves_curveSwap(mc_pool_pool_curves_kind_5779, mc_pool_pool_curves_p_5779,
mc_pool_pool_curves_x_5779, mc_pool_pool_curves_rs_5779, mc_pool_pool_curves_rd_5779,
mc_pool_pool_curves_aToB_5779) ==
  IF mc_pool_pool_curves_x_5779 < 0
  THEN mc_pool_pool_curves_NOQUOTE
  ELSE IF mc_pool_pool_curves_kind_5779 = mc_pool_pool_curves_PRICE
  THEN mc_pool_pool_curves_priceSwap(mc_pool_pool_curves_p_5779[(0 + 1)], mc_pool_pool_curves_x_5779,
  mc_pool_pool_curves_aToB_5779)
  ELSE IF mc_pool_pool_curves_kind_5779 = mc_pool_pool_curves_STABLE
  THEN mc_pool_pool_curves_stableSwap(mc_pool_pool_curves_p_5779[(0 + 1)], mc_pool_pool_curves_x_5779,
  mc_pool_pool_curves_rs_5779, mc_pool_pool_curves_rd_5779)
  ELSE IF mc_pool_pool_curves_kind_5779 = mc_pool_pool_curves_LINEAR
  THEN IF mc_pool_pool_curves_aToB_5779
  THEN mc_pool_pool_curves_linBuy(mc_pool_pool_curves_p_5779, mc_pool_pool_curves_x_5779,
  mc_pool_pool_curves_rs_5779, mc_pool_pool_curves_rd_5779)
  ELSE mc_pool_pool_curves_linSell(mc_pool_pool_curves_p_5779, mc_pool_pool_curves_x_5779,
  mc_pool_pool_curves_rd_5779)
  ELSE IF mc_pool_pool_curves_kind_5779 = mc_pool_pool_curves_OFFSET
  THEN mc_pool_pool_curves_productSwap(mc_pool_pool_curves_x_5779, (IF mc_pool_pool_curves_aToB_5779
  THEN mc_pool_pool_curves_rs_5779
  ELSE mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_rs_5779, mc_pool_pool_curves_p_5779[
    (0 + 1)
  ])), (IF mc_pool_pool_curves_aToB_5779
  THEN mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_rd_5779, mc_pool_pool_curves_p_5779[
    (0 + 1)
  ])
  ELSE mc_pool_pool_curves_rd_5779))
  ELSE mc_pool_pool_curves_productSwap(mc_pool_pool_curves_x_5779, mc_pool_pool_curves_rs_5779,
  mc_pool_pool_curves_rd_5779)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { conds: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_withdrawTerms(mc_pool_w_9860, mc_pool_c_9860, mc_pool_q_9860) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_f ==
    mc_pool_exitFee(mc_pool_q_9860, mc_pool_c_9860["ac"][(4 + 1)], mc_pool_c_9860[
      "ac"
    ][
      (9 + 1)
    ], mc_pool_c_9860["ar"][(0 + 1)])
  IN
  LET (*
    @type: (() => { a: Int, b: Int });
  *)
  mc_pool_r ==
    mc_pool_withdrawPair(mc_pool_w_9860, mc_pool_c_9860, mc_pool_q_9860)
  IN
  IF mc_pool_f < 0 \/ (mc_pool_r)["a"] < 0
  THEN [conds |-> <<(mc_pool_unquoted(TRUE, (mc_pool_NOQUOTECODES)))>>,
    ops |-> <<>>]
  ELSE [conds |->
      <<
        (mc_pool_when(((mc_pool_r)["a"] < mc_pool_c_9860["ar"][(1 + 1)]
          \/ (mc_pool_r)["b"] < mc_pool_c_9860["ar"][(2 + 1)]), {"P07"}, {(mc_pool_eSlippage)})),
        (mc_pool_when((((mc_pool_r)["a"] = 0
            /\ mc_pool_pool_ledger_amt(mc_pool_w_9860, mc_pool_c_9860["ac"][
              (5 + 1)
            ])
              /= 0)
          \/ ((mc_pool_r)["b"] = 0
            /\ mc_pool_pool_ledger_amt(mc_pool_w_9860, mc_pool_c_9860["ac"][
              (6 + 1)
            ])
              /= 0)), { "P22", "P20" }, {(mc_pool_eZero)})), (mc_pool_when(((mc_pool_r)[
            "a"
          ]
            > mc_pool_pool_num_M64
          \/ (mc_pool_r)["b"] > mc_pool_pool_num_M64), {"P08"}, {(mc_pool_eConversion)}))
      >>,
    ops |->
      (Append((IF mc_pool_f > 0
      THEN <<
        (mc_pool_pool_ledger_opTransfer(mc_pool_c_9860["ac"][(4 + 1)], mc_pool_c_9860[
          "ac"
        ][
          (9 + 1)
        ], mc_pool_c_9860["ac"][(2 + 1)], (mc_pool_f)))
      >>
      ELSE <<>>), (mc_pool_pool_ledger_opBurn(mc_pool_c_9860["ac"][(4 + 1)], mc_pool_c_9860[
        "ac"
      ][
        (3 + 1)
      ], mc_pool_c_9860["ac"][(2 + 1)], (mc_pool_c_9860["ar"][(0 + 1)]
        - mc_pool_f))))
        \o (IF (mc_pool_r)["a"] > 0
        THEN <<
          (mc_pool_pool_ledger_opTransfer(mc_pool_c_9860["ac"][(5 + 1)], mc_pool_c_9860[
            "ac"
          ][
            (7 + 1)
          ], mc_pool_c_9860["ac"][(1 + 1)], (mc_pool_r)["a"]))
        >>
        ELSE <<>>))
        \o (IF (mc_pool_r)["b"] > 0
        THEN <<
          (mc_pool_pool_ledger_opTransfer(mc_pool_c_9860["ac"][(6 + 1)], mc_pool_c_9860[
            "ac"
          ][
            (8 + 1)
          ], mc_pool_c_9860["ac"][(1 + 1)], (mc_pool_r)["b"]))
        >>
        ELSE <<>>)]

(*
  @type: ((Int, Seq(Int), Seq(Int), Int, Int, Int, Int, Bool) => Int);
*)
mc_pool_pool_curves_depositOne(mc_pool_pool_curves_kind_6385, mc_pool_pool_curves_p_6385,
mc_pool_pool_curves_fs_6385, mc_pool_pool_curves_x_6385, mc_pool_pool_curves_a_6385,
mc_pool_pool_curves_b_6385, mc_pool_pool_curves_s_6385, mc_pool_pool_curves_ofA_6385) ==
  IF mc_pool_pool_curves_x_6385 = 0
  THEN 0
  ELSE mc_pool_pool_curves_oneSideIn(mc_pool_pool_curves_kind_6385, mc_pool_pool_curves_p_6385,
  (mc_pool_pool_curves_curves_num_sub128(mc_pool_pool_curves_x_6385, (mc_pool_pool_curves_halfFee(mc_pool_pool_curves_fs_6385,
  mc_pool_pool_curves_x_6385)))), mc_pool_pool_curves_a_6385, mc_pool_pool_curves_b_6385,
  mc_pool_pool_curves_s_6385, mc_pool_pool_curves_ofA_6385)

(*
  @type: ((Int, Seq(Int), Seq(Int), Int, Int, Int, Int, Bool) => Int);
*)
mc_pool_pool_curves_withdrawOne(mc_pool_pool_curves_kind_6423, mc_pool_pool_curves_p_6423,
mc_pool_pool_curves_fs_6423, mc_pool_pool_curves_x_6423, mc_pool_pool_curves_a_6423,
mc_pool_pool_curves_b_6423, mc_pool_pool_curves_s_6423, mc_pool_pool_curves_ofA_6423) ==
  IF mc_pool_pool_curves_x_6423 = 0
  THEN 0
  ELSE mc_pool_pool_curves_oneSideOut(mc_pool_pool_curves_kind_6423, mc_pool_pool_curves_p_6423,
  (mc_pool_pool_curves_curves_num_add128(mc_pool_pool_curves_x_6423, (mc_pool_pool_curves_halfFee(mc_pool_pool_curves_fs_6423,
  mc_pool_pool_curves_x_6423)))), mc_pool_pool_curves_a_6423, mc_pool_pool_curves_b_6423,
  mc_pool_pool_curves_s_6423, mc_pool_pool_curves_ofA_6423)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Set({ p: Str, why: Str }));
*)
mc_props_judgeEffects(mc_props_w_15069, mc_props_c_15069, mc_props_q_15069, mc_props_o_15069) ==
  LET (*
    @type: (() => Set(Str));
  *)
  mc_props_ch == mc_props_changed(mc_props_w_15069, mc_props_o_15069)
  IN
  (((mc_props_flag(~(mc_props_accounted(mc_props_w_15069, mc_props_o_15069, (mc_props_ch))),
  {"P08"}, "tokens are not accounted for")
    \union mc_props_flag(~(mc_props_authorized(mc_props_w_15069, mc_props_c_15069,
    mc_props_q_15069, mc_props_o_15069, (mc_props_ch))), {"P01"}, "moved without authority"))
    \union mc_props_flag(~(mc_props_isolated(mc_props_w_15069, mc_props_c_15069,
    mc_props_o_15069)), {"P28"}, "another pool changed"))
    \union mc_props_flag((mc_props_o_15069["next"]["pools"]
        /= mc_props_w_15069["pools"]
      /\ ~(mc_props_props_pool_isInit(mc_props_c_15069["op"]))), {"P05"}, "a recorded pool changed"))
    \union (IF mc_props_props_pool_isInit(mc_props_c_15069["op"])
    THEN LET (*
      @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
    *)
    mc_props_r ==
      mc_props_props_ledger_pool(mc_props_o_15069["next"], mc_props_c_15069[
        "ac"
      ][
        (0 + 1)
      ])
    IN
    (mc_props_flag((mc_props_o_15069["alien"]
      \/ ~(mc_props_props_ledger_readable((mc_props_r)))), {"P06"}, "what was recorded cannot be read")
      \union mc_props_flag((~(mc_props_o_15069["alien"])
        /\ ~(mc_props_props_curves_validFees((mc_props_r)["fees"]))), {"P26"}, "a fee of one hundred percent or more was recorded"))
      \union mc_props_flag((mc_props_c_15069["op"]
          = mc_props_props_pool_INITLINEAR
        /\ ((((mc_props_r)["fees"][(0 + 1)] /= 0
              \/ (mc_props_r)["fees"][(2 + 1)] /= 0)
            \/ (mc_props_r)["fees"][(4 + 1)] /= 0)
          \/ (mc_props_r)["fees"][(6 + 1)] /= 0)), {"P17"}, "a linear pool was created with fees")
    ELSE (mc_props_flag(~(mc_props_limitsKept(mc_props_w_15069, mc_props_c_15069,
    mc_props_o_15069)), {"P07"}, "worse than the stated limit")
      \union mc_props_flag(~(mc_props_fair(mc_props_w_15069, mc_props_c_15069, mc_props_o_15069)),
      {"P22"}, "something for nothing"))
      \union (IF mc_props_c_15069["op"] = mc_props_props_pool_SWAP
      THEN mc_props_judgeQuote(mc_props_w_15069, mc_props_c_15069, mc_props_q_15069,
      mc_props_o_15069)
      ELSE LET (*
        @type: (() => Int);
      *)
      mc_props_a ==
        mc_props_props_ledger_amt(mc_props_w_15069, mc_props_q_15069["a"])
      IN
      LET (*
        @type: (() => Int);
      *)
      mc_props_b ==
        mc_props_props_ledger_amt(mc_props_w_15069, mc_props_q_15069["b"])
      IN
      LET (*
        @type: (() => Int);
      *)
      mc_props_s ==
        mc_props_props_ledger_sup(mc_props_w_15069, mc_props_q_15069["lp"])
      IN
      LET (*
        @type: (() => Int);
      *)
      mc_props_a2 ==
        mc_props_props_ledger_amt(mc_props_o_15069["next"], mc_props_q_15069[
          "a"
        ])
      IN
      LET (*
        @type: (() => Int);
      *)
      mc_props_b2 ==
        mc_props_props_ledger_amt(mc_props_o_15069["next"], mc_props_q_15069[
          "b"
        ])
      IN
      LET (*
        @type: (() => Int);
      *)
      mc_props_s2 ==
        mc_props_props_ledger_sup(mc_props_o_15069["next"], mc_props_q_15069[
          "lp"
        ])
      IN
      IF mc_props_c_15069["op"] = mc_props_props_pool_DEPOSIT
      THEN mc_props_flag((mc_props_s > 0
        /\ ~(mc_props_depositPromise(mc_props_q_15069, (mc_props_s2 - mc_props_s),
        (mc_props_s), (mc_props_a), (mc_props_b), (mc_props_a2 - mc_props_a), (mc_props_b2
          - mc_props_b)))), {"P20"}, "not the share of the reserves")
      ELSE IF mc_props_c_15069["op"] = mc_props_props_pool_WITHDRAW
      THEN (mc_props_flag(~(mc_props_withdrawPromise(mc_props_q_15069, (mc_props_s
        - mc_props_s2), (mc_props_s), (mc_props_a), (mc_props_b), (mc_props_a
        - mc_props_a2), (mc_props_b - mc_props_b2))), {"P20"}, "not the share of the reserves")
        \union mc_props_flag((mc_props_c_15069["ac"][(4 + 1)]
            /= mc_props_c_15069["ac"][(9 + 1)]
          /\ ~(mc_props_props_curves_feePromise(mc_props_c_15069["ar"][(0 + 1)],
          mc_props_q_15069["fees"][(4 + 1)], mc_props_q_15069["fees"][(5 + 1)], (mc_props_gain(mc_props_w_15069,
          mc_props_o_15069, mc_props_c_15069["ac"][(9 + 1)]))))), {"P19"}, "not the withdrawal fee"))
        \union mc_props_flag((mc_props_c_15069["ac"][(4 + 1)]
            = mc_props_c_15069["ac"][(9 + 1)]
          /\ mc_props_s - mc_props_s2 /= mc_props_c_15069["ar"][(0 + 1)]), {"P19"},
        "the fee account was charged a fee")
      ELSE IF mc_props_c_15069["op"] = mc_props_props_pool_DEPOSIT1
      THEN mc_props_flag((mc_props_s > 0
        /\ ~(mc_props_oneSidePromise(mc_props_q_15069, (mc_props_s), (mc_props_a),
        (mc_props_b), (mc_props_a2), (mc_props_b2), (mc_props_s2)))), {"P21"}, "diluted the other holders")
        \union mc_props_flag((mc_props_gain(mc_props_w_15069, mc_props_o_15069, (IF mc_props_props_pool_ofA(mc_props_w_15069,
        mc_props_c_15069["ac"][(3 + 1)], mc_props_c_15069["ac"][(4 + 1)])
        THEN mc_props_c_15069["ac"][(4 + 1)]
        ELSE mc_props_c_15069["ac"][(5 + 1)]))
          /= mc_props_c_15069["ar"][(0 + 1)]), {"P21"}, "took another amount than stated")
      ELSE ((mc_props_flag(~(mc_props_oneSidePromise(mc_props_q_15069, (mc_props_s),
      (mc_props_a), (mc_props_b), (mc_props_a2), (mc_props_b2), (mc_props_s2))),
      {"P21"}, "diluted the other holders")
        \union mc_props_flag((mc_props_loss(mc_props_w_15069, mc_props_o_15069, (IF mc_props_props_pool_ofA(mc_props_w_15069,
        mc_props_c_15069["ac"][(7 + 1)], mc_props_c_15069["ac"][(5 + 1)])
        THEN mc_props_c_15069["ac"][(5 + 1)]
        ELSE mc_props_c_15069["ac"][(6 + 1)]))
          /= mc_props_c_15069["ar"][(0 + 1)]), {"P21"}, "paid another amount than stated"))
        \union mc_props_flag((mc_props_c_15069["ac"][(4 + 1)]
            /= mc_props_c_15069["ac"][(8 + 1)]
          /\ ~(mc_props_props_curves_feePromise((mc_props_s - mc_props_s2), mc_props_q_15069[
            "fees"
          ][
            (4 + 1)
          ], mc_props_q_15069["fees"][(5 + 1)], (mc_props_gain(mc_props_w_15069,
          mc_props_o_15069, mc_props_c_15069["ac"][(8 + 1)]))))), {"P19"}, "not the withdrawal fee"))
        \union mc_props_flag((mc_props_c_15069["ac"][(4 + 1)]
            = mc_props_c_15069["ac"][(8 + 1)]
          /\ mc_props_loss(mc_props_w_15069, mc_props_o_15069, mc_props_c_15069[
            "ac"
          ][
            (4 + 1)
          ])
            /= mc_props_s - mc_props_s2), {"P19"}, "the fee account was charged a fee")))

(*
  @type: ((Int, Seq(Int), Seq(Int), Int, Int, Int, Int, Bool) => { dst: Int, lp: Int, owner: Int, src: Int });
*)
mc_pool_pool_curves_trade(mc_pool_pool_curves_kind_6549, mc_pool_pool_curves_p_6549,
mc_pool_pool_curves_fs_6549, mc_pool_pool_curves_x_6549, mc_pool_pool_curves_rs_6549,
mc_pool_pool_curves_rd_6549, mc_pool_pool_curves_s_6549, mc_pool_pool_curves_aToB_6549) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_ow ==
    mc_pool_pool_curves_ownerFee(mc_pool_pool_curves_fs_6549, mc_pool_pool_curves_x_6549)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_fees ==
    mc_pool_pool_curves_curves_num_add128((mc_pool_pool_curves_tradeFee(mc_pool_pool_curves_fs_6549,
    mc_pool_pool_curves_x_6549)), (mc_pool_pool_curves_ow))
  IN
  LET (*
    @type: (() => { dst: Int, src: Int });
  *)
  mc_pool_pool_curves_q ==
    mc_pool_pool_curves_curveSwap(mc_pool_pool_curves_kind_6549, mc_pool_pool_curves_p_6549,
    (mc_pool_pool_curves_curves_num_sub128(mc_pool_pool_curves_x_6549, (mc_pool_pool_curves_fees))),
    mc_pool_pool_curves_rs_6549, mc_pool_pool_curves_rd_6549, mc_pool_pool_curves_aToB_6549)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_src ==
    mc_pool_pool_curves_curves_num_add128((mc_pool_pool_curves_q)["src"], (mc_pool_pool_curves_fees))
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_left ==
    mc_pool_pool_curves_curves_num_sub128(mc_pool_pool_curves_rd_6549, (mc_pool_pool_curves_q)[
      "dst"
    ])
  IN
  IF (mc_pool_pool_curves_src < 0 \/ mc_pool_pool_curves_left < 0)
    \/ (mc_pool_pool_curves_q)["dst"] < 0
  THEN mc_pool_pool_curves_NOTRADE
  ELSE LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_ns ==
    mc_pool_pool_curves_rs_6549 + mc_pool_pool_curves_src
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pool_curves_lp ==
    IF mc_pool_pool_curves_ow = 0
    THEN 0
    ELSE mc_pool_pool_curves_oneSideOut(mc_pool_pool_curves_kind_6549, mc_pool_pool_curves_p_6549,
    (mc_pool_pool_curves_ow), (IF mc_pool_pool_curves_aToB_6549
    THEN mc_pool_pool_curves_ns
    ELSE mc_pool_pool_curves_left), (IF mc_pool_pool_curves_aToB_6549
    THEN mc_pool_pool_curves_left
    ELSE mc_pool_pool_curves_ns), mc_pool_pool_curves_s_6549, mc_pool_pool_curves_aToB_6549)
  IN
  [src |-> mc_pool_pool_curves_src,
    dst |-> (mc_pool_pool_curves_q)["dst"],
    owner |-> mc_pool_pool_curves_ow,
    lp |-> mc_pool_pool_curves_lp]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Int);
*)
mc_pool_deposit1Tokens(mc_pool_w_10110, mc_pool_c_10110, mc_pool_q_10110) ==
  IF mc_pool_pool_ledger_sup(mc_pool_w_10110, mc_pool_c_10110["ac"][(6 + 1)])
    = 0
  THEN mc_pool_INITIAL
  ELSE mc_pool_pool_curves_depositOne(mc_pool_q_10110["ck"], mc_pool_q_10110[
    "cp"
  ], mc_pool_q_10110["fees"], mc_pool_c_10110["ar"][(0 + 1)], (mc_pool_pool_ledger_amt(mc_pool_w_10110,
  mc_pool_c_10110["ac"][(4 + 1)])), (mc_pool_pool_ledger_amt(mc_pool_w_10110, mc_pool_c_10110[
    "ac"
  ][
    (5 + 1)
  ])), (mc_pool_pool_ledger_sup(mc_pool_w_10110, mc_pool_c_10110["ac"][(6 + 1)])),
  (mc_pool_ofA(mc_pool_w_10110, mc_pool_c_10110["ac"][(3 + 1)], mc_pool_c_10110[
    "ac"
  ][
    (4 + 1)
  ])))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => Int);
*)
mc_pool_withdraw1Tokens(mc_pool_w_10467, mc_pool_c_10467, mc_pool_q_10467) ==
  mc_pool_pool_curves_withdrawOne(mc_pool_q_10467["ck"], mc_pool_q_10467["cp"], mc_pool_q_10467[
    "fees"
  ], mc_pool_c_10467["ar"][(0 + 1)], (mc_pool_pool_ledger_amt(mc_pool_w_10467, mc_pool_c_10467[
    "ac"
  ][
    (5 + 1)
  ])), (mc_pool_pool_ledger_amt(mc_pool_w_10467, mc_pool_c_10467["ac"][(6 + 1)])),
  (mc_pool_pool_ledger_sup(mc_pool_w_10467, mc_pool_c_10467["ac"][(3 + 1)])), (mc_pool_ofA(mc_pool_w_10467,
  mc_pool_c_10467["ac"][(7 + 1)], mc_pool_c_10467["ac"][(5 + 1)])))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) }, { alien: Bool, code: Int, next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ok: Bool }) => Set({ p: Str, why: Str }));
*)
mc_props_judgeOutcome(mc_props_w_15197, mc_props_c_15197, mc_props_out_15197, mc_props_o_15197) ==
  IF ~(mc_props_o_15197["ok"])
  THEN mc_props_judgeRefusal(mc_props_w_15197, mc_props_c_15197, mc_props_out_15197,
  mc_props_o_15197)
  ELSE LET (*
    @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
  *)
  mc_props_q ==
    IF Len(mc_props_c_15197["ac"]) > 0
    THEN mc_props_props_ledger_pool(mc_props_w_15197, mc_props_c_15197["ac"][
      (0 + 1)
    ])
    ELSE mc_props_props_ledger_NOPOOL
  IN
  LET (*
    @type: (() => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  mc_props_hard ==
    LET (*
      @type: ((Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }) => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
    *)
    __QUINT_LAMBDA14(__quint_var3, __QUINT_LAMBDA13) ==
      IF LET (*
        @type: (({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }) => Bool);
      *)
      __QUINT_LAMBDA12(mc_props_x_15114) == ~(mc_props_x_15114["soft"])
      IN
      __QUINT_LAMBDA12(__QUINT_LAMBDA13)
      THEN Append(__quint_var3, __QUINT_LAMBDA13)
      ELSE __quint_var3
    IN
    ApaFoldSeqLeft(__QUINT_LAMBDA14, <<>>, mc_props_out_15197["bad"])
  IN
  ((LET (*
    @type: ((Set({ p: Str, why: Str }), { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }) => Set({ p: Str, why: Str }));
  *)
  __QUINT_LAMBDA15(mc_props_s_15129, mc_props_x_15129) ==
    mc_props_s_15129
      \union mc_props_flag(TRUE, mc_props_x_15129["ps"], "carried out although a condition is violated")
  IN
  ApaFoldSeqLeft(__QUINT_LAMBDA15, {}, (mc_props_hard))
    \union (IF Len(mc_props_out_15197["bad"]) = 0
    THEN mc_props_judgeDifference(mc_props_w_15197, mc_props_c_15197, (mc_props_q),
    mc_props_out_15197["next"], mc_props_o_15197)
    ELSE {}))
    \union mc_props_flag((((Len(mc_props_out_15197["bad"]) > 0
          /\ Len((mc_props_hard)) = 0)
        /\ mc_props_c_15197["op"] = mc_props_props_pool_SWAP)
      /\ (mc_props_q)["ck"] = mc_props_props_curves_STABLE), {"P11"}, "paid without a quote"))
    \union (IF mc_props_props_pool_wellFormed(mc_props_c_15197)
      /\ (mc_props_props_pool_isInit(mc_props_c_15197["op"])
        \/ mc_props_props_ledger_readable((mc_props_q)))
    THEN mc_props_judgeEffects(mc_props_w_15197, mc_props_c_15197, (mc_props_q),
    mc_props_o_15197)
    ELSE {})

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { dst: Int, lp: Int, owner: Int, src: Int });
*)
mc_pool_swapTrade(mc_pool_w_8727, mc_pool_c_8727, mc_pool_q_8727) ==
  mc_pool_pool_curves_trade(mc_pool_q_8727["ck"], mc_pool_q_8727["cp"], mc_pool_q_8727[
    "fees"
  ], mc_pool_c_8727["ar"][(0 + 1)], (mc_pool_pool_ledger_amt(mc_pool_w_8727, mc_pool_c_8727[
    "ac"
  ][
    (4 + 1)
  ])), (mc_pool_pool_ledger_amt(mc_pool_w_8727, mc_pool_c_8727["ac"][(5 + 1)])),
  (mc_pool_pool_ledger_sup(mc_pool_w_8727, mc_pool_c_8727["ac"][(7 + 1)])), (mc_pool_c_8727[
    "ac"
  ][
    (4 + 1)
  ]
    = mc_pool_q_8727["a"]))

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { conds: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_deposit1Terms(mc_pool_w_10234, mc_pool_c_10234, mc_pool_q_10234) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_pt ==
    mc_pool_deposit1Tokens(mc_pool_w_10234, mc_pool_c_10234, mc_pool_q_10234)
  IN
  IF mc_pool_pt < 0
  THEN [conds |-> <<(mc_pool_unquoted(TRUE, (mc_pool_NOQUOTECODES)))>>,
    ops |-> <<>>]
  ELSE [conds |->
      <<
        (mc_pool_when((mc_pool_pt < mc_pool_c_10234["ar"][(1 + 1)]), {"P07"}, {(mc_pool_eSlippage)})),
        (mc_pool_when((mc_pool_pt = 0 \/ mc_pool_c_10234["ar"][(0 + 1)] = 0), {"P22"},
        {(mc_pool_eZero)})), (mc_pool_when((mc_pool_pt > mc_pool_pool_num_M64), {"P08"},
        {(mc_pool_eConversion)}))
      >>,
    ops |->
      <<
        (mc_pool_pool_ledger_opTransfer(mc_pool_c_10234["ac"][(3 + 1)], (IF mc_pool_ofA(mc_pool_w_10234,
        mc_pool_c_10234["ac"][(3 + 1)], mc_pool_c_10234["ac"][(4 + 1)])
        THEN mc_pool_c_10234["ac"][(4 + 1)]
        ELSE mc_pool_c_10234["ac"][(5 + 1)]), mc_pool_c_10234["ac"][(2 + 1)], mc_pool_c_10234[
          "ar"
        ][
          (0 + 1)
        ])), (mc_pool_pool_ledger_opMint(mc_pool_c_10234["ac"][(6 + 1)], mc_pool_c_10234[
          "ac"
        ][
          (7 + 1)
        ], mc_pool_c_10234["ac"][(1 + 1)], (mc_pool_pt)))
      >>]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { conds: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_withdraw1Terms(mc_pool_w_10637, mc_pool_c_10637, mc_pool_q_10637) ==
  LET (*
    @type: (() => Int);
  *)
  mc_pool_burn ==
    mc_pool_withdraw1Tokens(mc_pool_w_10637, mc_pool_c_10637, mc_pool_q_10637)
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_f ==
    IF mc_pool_burn < 0
    THEN mc_pool_pool_num_NONE
    ELSE mc_pool_exitFee(mc_pool_q_10637, mc_pool_c_10637["ac"][(4 + 1)], mc_pool_c_10637[
      "ac"
    ][
      (8 + 1)
    ], (mc_pool_burn))
  IN
  IF mc_pool_burn < 0 \/ mc_pool_f < 0
  THEN [conds |-> <<(mc_pool_unquoted(TRUE, (mc_pool_NOQUOTECODES)))>>,
    ops |-> <<>>]
  ELSE [conds |->
      <<
        (mc_pool_when((mc_pool_burn + mc_pool_f > mc_pool_c_10637["ar"][(1 + 1)]),
        {"P07"}, {(mc_pool_eSlippage)})), (mc_pool_when((mc_pool_burn
          + mc_pool_f
          = 0), {"P22"}, {(mc_pool_eZero)})), (mc_pool_when((mc_pool_burn
          + mc_pool_f
          > mc_pool_pool_num_M64), {"P08"}, {(mc_pool_eConversion)}))
      >>,
    ops |->
      Append((Append((IF mc_pool_f > 0
      THEN <<
        (mc_pool_pool_ledger_opTransfer(mc_pool_c_10637["ac"][(4 + 1)], mc_pool_c_10637[
          "ac"
        ][
          (8 + 1)
        ], mc_pool_c_10637["ac"][(2 + 1)], (mc_pool_f)))
      >>
      ELSE <<>>), (mc_pool_pool_ledger_opBurn(mc_pool_c_10637["ac"][(4 + 1)], mc_pool_c_10637[
        "ac"
      ][
        (3 + 1)
      ], mc_pool_c_10637["ac"][(2 + 1)], (mc_pool_burn))))), (mc_pool_pool_ledger_opTransfer((IF mc_pool_ofA(mc_pool_w_10637,
      mc_pool_c_10637["ac"][(7 + 1)], mc_pool_c_10637["ac"][(5 + 1)])
      THEN mc_pool_c_10637["ac"][(5 + 1)]
      ELSE mc_pool_c_10637["ac"][(6 + 1)]), mc_pool_c_10637["ac"][(7 + 1)], mc_pool_c_10637[
        "ac"
      ][
        (1 + 1)
      ], mc_pool_c_10637["ar"][(0 + 1)])))]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) }) => Set({ p: Str, why: Str }));
*)
judged(v_145, c_145, out_145) ==
  IF Len(out_145["bad"]) > 0
  THEN {}
  ELSE {
    f_142 \in
      mc_props_judgeOutcome(v_145, c_145, out_145, (carriedOut(v_145, out_145))):
      f_142["why"] /= "KNOWN drain-rounding"
  }

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { conds: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_swapTerms(mc_pool_w_8997, mc_pool_c_8997, mc_pool_q_8997) ==
  LET (*
    @type: (() => { dst: Int, lp: Int, owner: Int, src: Int });
  *)
  mc_pool_t == mc_pool_swapTrade(mc_pool_w_8997, mc_pool_c_8997, mc_pool_q_8997)
  IN
  LET (*
    @type: (() => Bool);
  *)
  mc_pool_hosted ==
    (Len(mc_pool_c_8997["ac"]) > 10 /\ mc_pool_c_8997["mode"] = "direct")
      /\ (mc_pool_t)["lp"] > 0
  IN
  LET (*
    @type: (() => Str);
  *)
  mc_pool_host == IF mc_pool_hosted THEN mc_pool_c_8997["ac"][(10 + 1)] ELSE ""
  IN
  LET (*
    @type: (() => Int);
  *)
  mc_pool_share_8993 ==
    IF mc_pool_hosted
    THEN mc_pool_pool_curves_hostFee(mc_pool_q_8997["fees"], (mc_pool_t)["lp"])
    ELSE 0
  IN
  IF (mc_pool_t)["src"] < 0
  THEN [conds |-> <<(mc_pool_unquoted(TRUE, (mc_pool_NOQUOTECODES)))>>,
    ops |-> <<>>]
  ELSE [conds |->
      <<
        (mc_pool_when(((mc_pool_t)["dst"] < mc_pool_c_8997["ar"][(1 + 1)]), {"P07"},
        {(mc_pool_eSlippage)})), (mc_pool_unquoted(((mc_pool_t)["src"]
            > mc_pool_pool_num_M64
          \/ (mc_pool_t)["dst"] > mc_pool_pool_num_M64), {(mc_pool_eConversion)})),
        (mc_pool_when(((mc_pool_t)["src"] > mc_pool_pool_num_M64
          \/ (mc_pool_t)["dst"] > mc_pool_pool_num_M64), {"P08"}, {(mc_pool_eConversion)})),
        (mc_pool_unquoted(((mc_pool_t)["lp"] < 0), (mc_pool_NOQUOTECODES))), (mc_pool_when(((mc_pool_t)[
          "lp"
        ]
          > mc_pool_pool_num_M64), {"P08"}, {(mc_pool_eConversion)})), (mc_pool_when((mc_pool_hosted
          /\ (~(mc_pool_pool_ledger_isTok(mc_pool_w_8997, (mc_pool_host)))
            \/ (mc_pool_pool_ledger_tok(mc_pool_w_8997, (mc_pool_host)))["prog"]
              /= mc_pool_q_8997["tp"])), {"P18"}, { (mc_pool_eTokenProgram),
          (mc_pool_eAccount) })), (mc_pool_when(((mc_pool_hosted
            /\ mc_pool_pool_ledger_isTok(mc_pool_w_8997, (mc_pool_host)))
          /\ (mc_pool_pool_ledger_tok(mc_pool_w_8997, (mc_pool_host)))["mint"]
            /= mc_pool_c_8997["ac"][(7 + 1)]), {"P18"}, {(mc_pool_ePoolMint)}))
      >>,
    ops |->
      Append(((<<
        (mc_pool_pool_ledger_opTransfer(mc_pool_c_8997["ac"][(3 + 1)], mc_pool_c_8997[
          "ac"
        ][
          (4 + 1)
        ], mc_pool_c_8997["ac"][(2 + 1)], (mc_pool_t)["src"]))
      >>
        \o (IF mc_pool_share_8993 > 0
        THEN <<
          (mc_pool_pool_ledger_opMint(mc_pool_c_8997["ac"][(7 + 1)], (mc_pool_host),
          mc_pool_c_8997["ac"][(1 + 1)], (mc_pool_share_8993)))
        >>
        ELSE <<>>))
        \o (IF (mc_pool_t)["lp"] > 0
        THEN <<
          (mc_pool_pool_ledger_opMint(mc_pool_c_8997["ac"][(7 + 1)], mc_pool_c_8997[
            "ac"
          ][
            (8 + 1)
          ], mc_pool_c_8997["ac"][(1 + 1)], ((mc_pool_t)["lp"]
            - mc_pool_share_8993)))
        >>
        ELSE <<>>)), (mc_pool_pool_ledger_opTransfer(mc_pool_c_8997["ac"][
        (5 + 1)
      ], mc_pool_c_8997["ac"][(6 + 1)], mc_pool_c_8997["ac"][(1 + 1)], (mc_pool_t)[
        "dst"
      ])))]

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }, { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }) => { conds: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_terms(mc_pool_w_11487, mc_pool_c_11487, mc_pool_q_11487) ==
  IF mc_pool_c_11487["op"] = mc_pool_SWAP
  THEN mc_pool_swapTerms(mc_pool_w_11487, mc_pool_c_11487, mc_pool_q_11487)
  ELSE IF mc_pool_c_11487["op"] = mc_pool_DEPOSIT
  THEN mc_pool_depositTerms(mc_pool_w_11487, mc_pool_c_11487, mc_pool_q_11487)
  ELSE IF mc_pool_c_11487["op"] = mc_pool_WITHDRAW
  THEN mc_pool_withdrawTerms(mc_pool_w_11487, mc_pool_c_11487, mc_pool_q_11487)
  ELSE IF mc_pool_c_11487["op"] = mc_pool_DEPOSIT1
  THEN mc_pool_deposit1Terms(mc_pool_w_11487, mc_pool_c_11487, mc_pool_q_11487)
  ELSE mc_pool_withdraw1Terms(mc_pool_w_11487, mc_pool_c_11487, mc_pool_q_11487)

(*
  @type: (({ mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, { ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
*)
mc_pool_request(mc_pool_w_11782, mc_pool_c_11782) ==
  IF ~(mc_pool_wellFormed(mc_pool_c_11782))
  THEN mc_pool_refuse(mc_pool_w_11782, (mc_pool_violated((mc_pool_framing(mc_pool_c_11782)))))
  ELSE IF mc_pool_isInit(mc_pool_c_11782["op"])
  THEN LET (*
    @type: (() => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  mc_pool_bad ==
    mc_pool_violated((mc_pool_framing(mc_pool_c_11782)
      \o mc_pool_initConds(mc_pool_w_11782, mc_pool_c_11782)))
  IN
  LET (*
    @type: (() => Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }));
  *)
  mc_pool_ops ==
    <<
      (mc_pool_pool_ledger_opMint(mc_pool_c_11782["ac"][(4 + 1)], mc_pool_c_11782[
        "ac"
      ][
        (6 + 1)
      ], mc_pool_c_11782["ac"][(1 + 1)], (mc_pool_INITIAL)))
    >>
  IN
  LET (*
    @type: (() => { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool });
  *)
  mc_pool_l ==
    mc_pool_ledgerConds(mc_pool_w_11782, mc_pool_c_11782, (mc_pool_ops))
  IN
  LET (*
    @type: (() => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  mc_pool_all1 ==
    IF (mc_pool_l)["bad"]
    THEN Append((mc_pool_bad), (mc_pool_l))
    ELSE mc_pool_bad
  IN
  IF Len((mc_pool_all1)) > 0
  THEN mc_pool_refuse(mc_pool_w_11782, (mc_pool_all1))
  ELSE LET (*
    @type: (() => { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) });
  *)
  mc_pool_w1 ==
    (mc_pool_pool_ledger_perform(mc_pool_w_11782, (mc_pool_ops)))["w"]
  IN
  [bad |-> <<>>,
    ops |-> mc_pool_ops,
    next |->
      [
        (mc_pool_w1) EXCEPT
          !["pools"] =
            LET (*
              @type: (() => (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }));
            *)
            __quint_var39 == (mc_pool_w1)["pools"]
            IN
            LET (*
              @type: (() => Set(Str));
            *)
            __quint_var40 == DOMAIN __quint_var39
            IN
            [
              __quint_var41 \in
                {mc_pool_c_11782["ac"][(0 + 1)]} \union __quint_var40 |->
                IF __quint_var41 = mc_pool_c_11782["ac"][(0 + 1)]
                THEN mc_pool_record(mc_pool_w_11782, mc_pool_c_11782)
                ELSE (__quint_var39)[__quint_var41]
            ]
      ]]
  ELSE LET (*
    @type: (() => { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int });
  *)
  mc_pool_q ==
    mc_pool_pool_ledger_pool(mc_pool_w_11782, mc_pool_c_11782["ac"][(0 + 1)])
  IN
  LET (*
    @type: (() => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  mc_pool_frame ==
    mc_pool_violated((mc_pool_framing(mc_pool_c_11782)
      \o mc_pool_stateConds(mc_pool_w_11782, mc_pool_c_11782["ac"][(0 + 1)])))
  IN
  IF ~(mc_pool_pool_ledger_readable((mc_pool_q)))
  THEN mc_pool_refuse(mc_pool_w_11782, (mc_pool_frame))
  ELSE LET (*
    @type: (() => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  mc_pool_bound ==
    mc_pool_frame
      \o mc_pool_violated((mc_pool_binding(mc_pool_w_11782, mc_pool_c_11782, (mc_pool_q))))
  IN
  LET (*
    @type: (() => { conds: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
  *)
  mc_pool_t == mc_pool_terms(mc_pool_w_11782, mc_pool_c_11782, (mc_pool_q))
  IN
  LET (*
    @type: (() => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  mc_pool_quoted == mc_pool_bound \o mc_pool_violated((mc_pool_t)["conds"])
  IN
  LET (*
    @type: (() => { bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool });
  *)
  mc_pool_l ==
    mc_pool_ledgerConds(mc_pool_w_11782, mc_pool_c_11782, (mc_pool_t)["ops"])
  IN
  LET (*
    @type: (() => Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }));
  *)
  mc_pool_objections ==
    IF (mc_pool_l)["bad"]
    THEN Append((mc_pool_quoted), (mc_pool_l))
    ELSE mc_pool_quoted
  IN
  IF Len((mc_pool_objections)) > 0
  THEN [bad |-> mc_pool_objections,
    ops |-> (mc_pool_t)["ops"],
    next |-> mc_pool_w_11782]
  ELSE [bad |-> <<>>,
    ops |-> (mc_pool_t)["ops"],
    next |->
      (mc_pool_pool_ledger_perform(mc_pool_w_11782, (mc_pool_t)["ops"]))["w"]]

(*
  @type: (({ ac: Seq(Str), ar: Seq(Int), ck: Int, con: { fees: Seq(Int), kinds: Seq(Int), on: Bool, owner: Str }, cp: Seq(Int), fees: Seq(Int), mode: Str, op: Str, ro: Set(Str), sg: Set(Str) }) => Bool);
*)
ordered(c_1186) ==
  LET (*
    @type: (() => { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
  *)
  out == mc_pool_request(w, c_1186)
  IN
  Len((out)["bad"]) = 0
    /\ w' := (out)["next"]
    /\ flags' := (judged(w, c_1186, (out)))
    /\ left' := (left - 1)

(*
  @type: (() => Bool);
*)
stepTrade ==
  \E c \in TRADES:
    LET (*
      @type: (() => { bad: Seq({ bad: Bool, codes: Set(Int), ps: Set(Str), soft: Bool }), next: { mints: (Str -> { auth: Str, frz: Str, prog: Str, st: Int, sup: Int }), pools: (Str -> { a: Str, am: Str, b: Str, bm: Str, bump: Int, ck: Int, cp: Seq(Int), fee: Str, fees: Seq(Int), ini: Int, len: Int, lp: Str, prog: Str, tp: Str, ver: Int }), toks: (Str -> { amt: Int, cls: Str, dam: Int, dlg: Str, mint: Str, own: Str, prog: Str, st: Int }) }, ops: Seq({ dst: Str, kind: Str, mint: Str, n: Int, src: Str, who: Str }) });
    *)
    out == mc_pool_request(w, c)
    IN
    left > 0
      /\ Len((out)["bad"]) = 0
      /\ w' := (out)["next"]
      /\ flags' := (judged(w, c, (out)))
      /\ left' := (left - 1)

(*
  @type: (() => Bool);
*)
use ==
  \E x \in { 1, 3, 6 }:
    \E c \in { (ask((mc_pool_SWAP), <<
        "N", "pda:N", "u", "uA", "aN", "bN", "uB", "lpN", "fN", "TOK"
      >>, <<x, 0>>)),
      (ask((mc_pool_SWAP), <<
        "N", "pda:N", "u", "uB", "bN", "aN", "uA", "lpN", "fN", "TOK"
      >>, <<x, 0>>)),
      (ask((mc_pool_DEPOSIT), <<
        "N", "pda:N", "u", "uA", "uB", "aN", "bN", "lpN", "uN", "TOK"
      >>, <<x, 8, 8>>)),
      (ask((mc_pool_WITHDRAW), <<
        "N", "pda:N", "u", "lpN", "uN", "aN", "bN", "uA", "uB", "fN", "TOK"
      >>, <<x, 0, 0>>)),
      (ask((mc_pool_DEPOSIT1), <<
        "N", "pda:N", "u", "uA", "aN", "bN", "lpN", "uN", "TOK"
      >>, <<x, 0>>)),
      (ask((mc_pool_WITHDRAW1), <<
        "N", "pda:N", "u", "lpN", "uN", "aN", "bN", "uA", "fN", "TOK"
      >>, <<x, 6>>)) }:
      left > 0
        /\ mc_ledger_readable((mc_ledger_pool(w, "N")))
        /\ (mc_ledger_pool(w, "N"))["a"] /= "SYS"
        /\ (mc_ledger_pool(w, "N"))["ck"] /= mc_curves_LINEAR
        /\ ordered(c)

(*
  @type: (() => Bool);
*)
createAgain ==
  \E op \in { (mc_pool_INITPRICE), (mc_pool_INITLINEAR) }:
    mc_ledger_readable((mc_ledger_pool(w, "N")))
      /\ ordered((creation(op, "entry", 0, <<1, 1, 1, 1>>, <<
        0, 0, 0, 0, 0, 0, 0, 0
      >>, (mc_pool_NOCON))))

(*
  @type: (() => Bool);
*)
stepRoles ==
  \E c \in BASES:
    \E i \in 0 .. 10:
      \E n \in NAMES:
        \E sg \in SIGNERS:
          left > 0
            /\ i < Len(c["ac"])
            /\ ordered([ (placed(c, i, n)) EXCEPT !["sg"] = sg ])

(*
  @type: (() => Bool);
*)
stepRoles2 ==
  \E c \in BASES:
    \E i \in 0 .. 9:
      \E n \in NAMES:
        \E j \in 1 .. 10:
          \E m \in NAMES:
            left > 1
              /\ i < j
              /\ j < Len(c["ac"])
              /\ ordered([
                (placed((placed(c, i, n)), j, m)) EXCEPT
                  !["sg"] = { "u", "v", "d" }
              ])

(*
  @type: (() => Bool);
*)
create == \E c \in CREATIONS: left > 0 /\ ordered(c)

(*
  @type: (() => Bool);
*)
q_step == stepTrade

(*
  @type: (() => Bool);
*)
stepCreation == create \/ use \/ createAgain

================================================================================
