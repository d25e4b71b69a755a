#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
C="controller/src/"; L="liquidity_layer/src/"; A="price_aggregator/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    d["anchors"]["observe_at"]=observe or ["contract calls executed on the Rust VM; storage and balances decoded after every call"]
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Fixed-point arithmetic rounds half-up, exactly, at the stated precision",
 "Multiplication, division and rescaling of fixed-point amounts return exactly the half-up rounded result (half away from zero for signed values) at the requested precision, at which the operands are expressed first; increasing the precision never loses information, and min/max return the smaller/larger operand whatever the two scales are. No operation on legal operands panics or depends on the scale an operand happens to be stored in beyond its value.",
 ["inputs"],"for every pair of operands, operand scales and target precision the contracts use (0 to 27 decimals and beyond)",
 "The unit tests fix a few dozen operand pairs; rounding mistakes live at exact halves and at mixed scales that they do not enumerate.",
 ["common/math/src/math.rs","common/constants/src/lib.rs"],
 [("mul_half_up / div_half_up and signed variants","common/math/src/math.rs"),("rescale_half_up, min, max","common/math/src/math.rs")],
 observe=["a harness contract that exposes the arithmetic module's functions over generated operands"])

p("C02","Interest-rate curve: the documented piecewise formula, bounded and monotone",
 "The borrow rate is the documented three-segment function of utilisation (rising linearly to the middle, optimal and full utilisation points), never exceeds the configured maximum, never decreases when utilisation grows and starts at the base rate; utilisation is debt value over supplied value (zero when nothing is supplied). The supplier rate is utilisation times borrow rate less the protocol share, is zero with no debt and never above the borrow rate, and interest growth over a time span is the five-term exponential expansion of rate times time.",
 ["inputs","configurations"],"for every valid market parameter set, utilisation in and above [0,1] and elapsed time",
 "Only a handful of integration tests look at a rate at all, for one parameter set; segment boundaries, caps and unusual parameters are not reached.",
 ["common/rates/src/rates.rs",L+"view.rs",L+"cache/mod.rs"],
 [("calculate_borrow_rate / calculate_deposit_rate / calculate_compounded_interest","common/rates/src/rates.rs"),("utilization",L+"cache/mod.rs")],
 observe=["a harness contract exposing the rates module; pool views of deployed pools along histories"])

p("C03","Interest accrual: indexes grow with time and interest is split without loss",
 "Between any two transactions the debt and supply values of a market grow exactly by the interest the rate model gives for the elapsed time, once per unit of time however often markets are touched; all interest charged to borrowers is divided between suppliers (through the supply value) and the protocol revenue by the configured reserve share. Apart from bad-debt write-offs neither index ever decreases, both start at one, and an operation at an unchanged timestamp charges nothing.",
 ["histories","inputs","configurations"],"for every operation history, market configuration and sequence of elapsed times",
 "Tests advance the clock a few times over single-user scenarios and compare rounded values; accrual must be applied at the right moment before every one of the many operations, for every history.",
 [L+"utils.rs",L+"liquidity.rs","common/rates/src/rates.rs",L+"cache/mod.rs"],
 [("global_sync and internal_add_protocol_revenue",L+"utils.rs"),("update_borrow_index, update_supply_index, calculate_supplier_rewards","common/rates/src/rates.rs")],
 [("borrow_index, supply_index, last_timestamp, revenue","per-market accrual state",L+"storage/mod.rs")])

p("C04","Solvency: a pool's cash plus its loans always covers suppliers and revenue",
 "In every market, after every transaction, the tokens the pool holds plus the current value owed by borrowers are at least the current value owed to suppliers including protocol revenue, up to rounding dust that does not grow beyond a few units per operation. No sequence of operations lets a set of users take out more of an asset than they put in plus interest and rewards others paid in, and a payout larger than the cash in the pool is refused.",
 ["histories","inputs","configurations"],"for every operation history over several users and markets, price and time evolution, including bad debt write-offs",
 "A conservation law over whole histories; the existing tests check single balances after scripted scenarios.",
 [L+"liquidity.rs",L+"utils.rs",L+"cache/mod.rs"],
 [("supply, borrow, withdraw, repay, seize_position, claim_revenue, create_strategy, flash_loan, add_reward",L+"liquidity.rs"),("has_reserves",L+"cache/mod.rs")],
 [("supplied, borrowed, revenue","scaled totals of a market",L+"storage/mod.rs")])

p("C05","Ledgers agree: market totals equal the sum of positions, nothing gets stuck",
 "After every transaction the scaled supply (debt) total of each market equals the sum of the scaled deposits (debts) of all accounts plus, on the supply side, the protocol's scaled revenue. Tokens never remain stranded in the controller after a successful transaction, no other account's positions change, and a rejected transaction changes nothing.",
 ["histories","inputs","configurations"],"for every operation history over several accounts and markets, including multi-asset calls and rejected calls",
 "Two ledgers in two contracts must be kept in step by every code path; the tests never compare the two.",
 [C+"positions/update.rs",C+"positions/supply.rs",C+"positions/withdraw.rs",C+"positions/borrow.rs",C+"positions/repay.rs",C+"positions/liquidation.rs",L+"liquidity.rs"],
 [("update_or_remove_position / store_updated_position",C+"positions/update.rs"),("scaled totals updated with each position",L+"liquidity.rs")],
 [("positions","per-account scaled amounts",C+"storage/mod.rs"),("supplied/borrowed/revenue","market totals",L+"storage/mod.rs")])

p("C06","Deposits and withdrawals credit and pay exactly the right amounts",
 "Supplying credits the position by the paid amount at the current supply value and moves exactly that amount into the market; withdrawing pays out the lesser of the requested amount and the deposit's current value, removes exactly the corresponding share, and a request at or above the current value closes the deposit completely. A supply followed by a full withdrawal at the same moment returns what was paid to within one unit of rounding (more only where supply value has grown so far that one internal share is worth more than a unit); zero amounts and unknown assets or positions are refused.",
 ["inputs","histories","configurations"],"for every amount (one unit to very large), decimals, index value, single or bulk call, and position state",
 "Tests use round amounts with an index near one; rounding and the partial/full boundary depend on amount, decimals and accumulated index.",
 [C+"lib.rs",C+"positions/supply.rs",C+"positions/withdraw.rs",L+"liquidity.rs",L+"utils.rs"],
 [("process_deposit / update_market_position",C+"positions/supply.rs"),("process_withdrawal",C+"positions/withdraw.rs"),("supply / withdraw / calculate_gross_withdrawal_amounts",L+"liquidity.rs")])

p("C07","Borrowing and repaying record and settle exactly the right debt",
 "Borrowing pays exactly the requested amount and adds exactly that much debt at the current debt value; repaying lowers the debt by exactly the amount paid, by anyone, and a payment at or above the current debt closes it and returns all of the excess to the payer. Repaying a debt that does not exist, a zero amount or an unsupported token is refused without taking the payment.",
 ["inputs","histories","configurations"],"for every amount, decimals, index value, bulk combination of tokens and elapsed time",
 "Tests sample a few amounts; rounding at the closing boundary, repeated tokens in one call and overpayment refunds need generated inputs.",
 [C+"lib.rs",C+"positions/borrow.rs",C+"positions/repay.rs",L+"liquidity.rs",L+"utils.rs"],
 [("process_borrow / handle_borrow_position",C+"positions/borrow.rs"),("process_repayment",C+"positions/repay.rs"),("borrow / repay / calculate_repayment_details",L+"liquidity.rs")])

p("C08","A borrow never takes debt beyond the loan-to-value limit of the collateral",
 "A borrow request succeeds only if the value of all the account's debts afterwards, priced at the protocol's prices and with interest up to date, does not exceed the loan-to-value weighted value of its collateral; every debt asset and every borrow of a multi-asset request is counted. A request within the limit (and within the other limits) is accepted.",
 ["inputs","histories","configurations"],"for every portfolio of collateral and debt, prices, decimals, and single or bulk borrow requests",
 "Portfolio-wide inequality over prices, interest and bulk requests; tests check one or two collateral/debt pairs well away from the limit.",
 [C+"positions/borrow.rs",C+"utils.rs",C+"lib.rs",C+"helpers/mod.rs"],
 [("validate_borrow_collateral / validate_ltv_collateral",C+"positions/borrow.rs"),("calculate_collateral_values, calculate_total_borrow_in_egld",C+"utils.rs")])

p("C09","No owner action may leave the account liquidatable",
 "After any successful withdrawal, collateral swap, debt swap, leveraged position opening or collateral-funded repayment by the account owner, the account's health factor (threshold-weighted collateral over debt, all priced and accrued now, that is after any price movement the action's own swaps caused) is at least one, or the account has no debt. Actions that would end below one are refused as a whole.",
 ["inputs","histories","configurations"],"for every portfolio, price and time evolution, and every combination of withdrawn or swapped amounts",
 "The check must happen after the last change of every owner-operated entry point, over all portfolios; tests sample single-asset cases.",
 [C+"lib.rs",C+"strategy.rs",C+"utils.rs",C+"helpers/mod.rs"],
 [("validate_is_healthy",C+"utils.rs"),("compute_health_factor",C+"helpers/mod.rs"),("end of each entry point",C+"strategy.rs")])

p("C10","Liquidation only hits unhealthy accounts and takes no more than it repays",
 "A liquidation succeeds only while the account's health factor is below one; the collateral the liquidator receives plus the protocol's cut is worth at most the debt value actually retired times one plus the bonus, never exceeds the deposits, and is taken from the deposits in proportion to their value. Debt is retired by exactly what the liquidator paid, payments beyond what is needed are returned to the liquidator in full, and each debt is counted once however the payments are split.",
 ["inputs","histories","configurations"],"for every unhealthy portfolio, combination, order and split of repayment tokens and amounts, and price evolution",
 "Tests liquidate a few scripted portfolios with one or two payments; the split of payments, excess handling and proportional seizure interact over many inputs.",
 [C+"positions/liquidation.rs",C+"helpers/mod.rs"],
 [("execute_liquidation / process_liquidation",C+"positions/liquidation.rs"),("calculate_repayment_amounts, process_excess_payment, calculate_seized_collateral",C+"positions/liquidation.rs")])

p("C11","Liquidation bonus, target and protocol fee follow the stated schedule",
 "The liquidation bonus lies between the collateral-weighted configured bonus and the 15% maximum and grows linearly with how far the account is below its target health; the repayment is capped at what brings the account to the target health factor (first the safer target, then the lower one, else full seizure), and any unhealthy account whose collateral can pay its bonus can be liquidated. The protocol keeps exactly the configured fraction of the bonus part of each seized asset as revenue.",
 ["inputs","configurations","histories"],"for every portfolio, liquidation parameters, prices and offered repayment",
 "The closed-form amounts depend on weighted bonuses, thresholds and proportions; tests check a few portfolios with loose tolerances.",
 [C+"helpers/mod.rs",C+"positions/liquidation.rs","common/constants/src/lib.rs"],
 [("calculate_linear_bonus, compute_liquidation_details, estimate_liquidation_amount",C+"helpers/mod.rs"),("protocol fee of seized bonus",C+"positions/liquidation.rs")])

p("C12","Bad debt is written off only when hopeless, and is fully accounted for",
 "A bad-debt clean-up succeeds only for an account whose debt is worth more than its collateral and whose collateral is worth at most five dollars; it then removes all its debts and deposits, moves the remaining deposits to protocol revenue and lowers the supply value of each debt's market by exactly the written-off debt (never below the floor). All other accounts lose only that proportional share, and the account ceases to exist.",
 ["inputs","histories","configurations"],"for every insolvent or nearly insolvent portfolio, market composition and order of clean-ups",
 "Socialisation touches every supplier's claim and both ledgers; tests cover one scripted case.",
 [C+"positions/liquidation.rs",C+"lib.rs",L+"liquidity.rs",L+"utils.rs"],
 [("can_clean_bad_debt_positions / perform_bad_debt_cleanup",C+"positions/liquidation.rs"),("seize_position, apply_bad_debt_to_supply_index",L+"utils.rs")])

p("C13","Isolated collateral stays alone and its debt stays under the ceiling",
 "An account opened with an isolated asset never holds any other deposit and an ordinary account never gains an isolated one; it may borrow only assets allowed in isolation, and the dollar value of all debt opened against an isolated asset never exceeds that asset's ceiling at the time of a borrow. The recorded isolated debt rises by the value borrowed, falls by the value repaid, liquidated or written off, and never goes negative.",
 ["histories","inputs","configurations"],"for every history of supply, borrow, repay, liquidation, strategy and clean-up calls over isolated and ordinary accounts and changing prices",
 "The counter is shared by all accounts using the asset and maintained by many entry points; tests follow single accounts.",
 [C+"positions/supply.rs",C+"positions/borrow.rs",C+"positions/repay.rs",C+"utils.rs",C+"strategy.rs",C+"positions/liquidation.rs"],
 [("validate_isolated_collateral",C+"positions/supply.rs"),("handle_isolated_debt / validate_isolated_debt_ceiling",C+"positions/borrow.rs"),("adjust_isolated_debt_usd, update_isolated_debt_after_repayment",C+"utils.rs")],
 [("isolated_asset_debt_usd","dollar debt opened against each isolated asset",C+"storage/mod.rs")])

p("C14","E-mode applies only to listed assets of a live category, with its parameters",
 "An account in an efficiency category can deposit and borrow only assets that belong to that category with the matching permission, and its deposits carry the category's loan-to-value, threshold and bonus while all others carry the asset's own; a deprecated category accepts no new deposits or borrows. The category of an account is fixed when it is opened, and isolated assets or isolated accounts never use one.",
 ["histories","inputs","configurations"],"for every category configuration and reconfiguration (add, edit, remove) interleaved with user operations",
 "Interaction of three configuration tables with every entry point over histories; tests exercise a couple of static set-ups.",
 [C+"positions/emode.rs",C+"positions/supply.rs",C+"positions/borrow.rs",C+"config.rs",C+"strategy.rs"],
 [("apply_e_mode_to_asset_config, ensure_e_mode_not_deprecated, validate of membership",C+"positions/emode.rs"),("category maintenance",C+"config.rs")])

p("C15","Borrow and deposit permissions, siloed debt and position-count limits hold",
 "Only assets flagged as collateral can be deposited and only assets flagged as borrowable can be borrowed; an account with a siloed debt never has a debt in another asset; and no call that opens positions takes an account beyond the configured maximum number of deposits or debts. These rules hold for every entry point that opens a position, including multi-asset calls and strategies, and legal requests are not refused.",
 ["histories","inputs","configurations"],"for every asset configuration, limit setting, bulk request and history",
 "Each rule must be enforced by several entry points, also for combinations inside one call; tests check each rule on one path.",
 [C+"positions/supply.rs",C+"positions/borrow.rs",C+"validation.rs",C+"strategy.rs"],
 [("validate_supply_payment / can_supply",C+"positions/supply.rs"),("validate_borrow_asset",C+"positions/borrow.rs"),("validate_bulk_position_limits",C+"validation.rs")])

p("C16","Supply and borrow caps are never exceeded by a new supply or borrow",
 "After any successful deposit into a market with a supply cap the market's total supplied value is at most the cap, and after any successful borrow from a market with a borrow cap its total debt is at most the cap, interest included; markets without a cap are not limited. Amounts that fit under the cap are accepted up to the last unit.",
 ["histories","inputs","configurations"],"for every cap, amount, accrued index and multi-asset call, through every entry point that supplies or borrows",
 "Cap checks use accrued totals in both contracts; tests use fresh markets with index one and a single caller.",
 [C+"positions/supply.rs",C+"positions/borrow.rs",C+"utils.rs",C+"strategy.rs"],
 [("validate_supply_cap",C+"positions/supply.rs"),("validate_borrow_cap",C+"positions/borrow.rs")])

p("C17","Flash loans are repaid with the fee in the same transaction or do not happen",
 "A flash loan succeeds only for a positive amount of an enabled asset within the pool's cash, called on a permitted endpoint of a same-shard contract, and only if that contract returns at least the amount plus the configured fee in the same asset; everything above the amount becomes protocol revenue. While it runs no other operation on user funds or positions can be executed (claims of earned revenue may be), and afterwards the system accepts operations again.",
 ["inputs","histories","fault_sequences","configurations"],"for every amount, fee, borrower behaviour (under-, exact, over-, split, wrong-token repayment, re-entrance) and pool state",
 "Borrower behaviour is adversarial; tests use two scripted borrower contracts.",
 [C+"lib.rs",C+"validation.rs",L+"liquidity.rs",L+"utils.rs",C+"strategy.rs"],
 [("flash_loan",C+"lib.rs"),("reentrancy_guard, validate_flash_loan_endpoint",C+"validation.rs"),("flash_loan / validate_flash_repayment",L+"liquidity.rs")],
 [("flash_loan_ongoing","re-entrance flag",C+"storage/mod.rs")])

p("C18","The oracle uses safe prices: tolerance bands, staleness and source rules",
 "When both sources of an asset exist the price used is the on-chain average price if the two agree within the first tolerance, their mean within the second, and otherwise only operations that cannot harm the protocol may proceed (on the on-chain average price); stale, missing or paused feeds and inactive trading pairs stop risk-increasing operations. Derived, liquidity-token and single-source assets are valued by their documented formulas, prices are always expressed per whole token in the common unit, and no valuation uses a manipulable spot price alone.",
 ["inputs","configurations","fault_sequences"],"for every combination of source type, deviation, tolerance band, feed age and pair state, for each operation class",
 "The decision table (source, deviation, age, pair state, operation) is far larger than the scripted price tests, and rounding at the band edges matters.",
 [C+"oracle/mod.rs",C+"helpers/mod.rs",C+"cache/mod.rs"],
 [("calculate_final_price, is_within_anchor",C+"oracle/mod.rs"),("safe_price, safe_lp_price, derived_price, aggregator_price_feed",C+"oracle/mod.rs"),("calculate_tolerance_range",C+"helpers/mod.rs")])

p("C19","The price aggregator publishes the median of enough fresh, distinct oracles",
 "A price round is published exactly when the configured number of distinct oracles, registered when they submitted, have submitted for a pair within the round's time window, and its value is the median of those submissions (mean of the middle two for an even number); each oracle counts once per round and late or future-dated submissions are refused. Round numbers increase by one per publication, each oracle's record counts its submissions and the accepted ones, submissions of an expired round never count, and nothing is accepted or served while paused, nor configured by anyone but the owner; an aggregator is paused after its deployment and after an upgrade until the owner unpauses it.",
 ["histories","inputs","schedules"],"for every sequence of submissions, oracles, timestamps, pauses and reconfigurations over several pairs",
 "Round state machine over time and several oracles; the tests run one scripted flow.",
 [A+"utils.rs",A+"lib.rs",A+"median.rs",A+"admin.rs",A+"views.rs"],
 [("submit_unchecked, create_new_round, clear_submissions",A+"utils.rs"),("calculate",A+"median.rs"),("set_submission_count, add/remove oracles",A+"admin.rs")],
 [("rounds, submissions, first/last submission timestamps","state of each pair's round",A+"storage.rs")])

p("C20","Privileged operations are reserved; a paused protocol refuses user operations",
 "Configuration, oracle, market creation and upgrade, reward and pause operations succeed only for the owner, market contracts obey only the controller, and no user-level caller can change any configuration. While the protocol is paused every user operation on user funds or positions is refused, and nothing else is changed by pausing and unpausing. An upgrade of the controller leaves it paused, and an upgrade of a market's code keeps the market's state.",
 ["inputs","histories"],"for every endpoint, caller (owner, user, liquidator, other contract) and pause state",
 "A rule about all endpoints and callers; the tests try a few combinations.",
 [C+"config.rs",C+"router.rs",C+"lib.rs",C+"strategy.rs",L+"liquidity.rs",L+"lib.rs"],
 [("only_owner / require_not_paused on endpoints",C+"lib.rs"),("only_owner endpoints of the market",L+"liquidity.rs")])

p("C21","Accounts are controlled only through their own token, through their whole life",
 "Withdrawing, borrowing or running a strategy on an account requires sending that account's own token, which is handed back to the caller while the account has positions and destroyed when a withdrawal empties it; supplying without one opens a new, empty, uniquely numbered account whose stored attributes match its token. Other tokens, foreign collections, wrong quantities or unknown account numbers are refused, and an account that was closed can never be used again.",
 ["histories","inputs"],"for every history of opening, transferring, using and closing accounts by several users, and every malformed payment list",
 "Ownership and lifecycle over histories and malformed payments; tests exercise straight-line lifecycles.",
 [C+"positions/account.rs",C+"validation.rs",C+"utils.rs",C+"lib.rs",C+"positions/withdraw.rs"],
 [("validate_account, get_or_create_account, create_account_nft",C+"positions/account.rs"),("manage_account_after_withdrawal",C+"positions/withdraw.rs")],
 [("accounts, account_attributes, account_nonce","registry of live accounts",C+"storage/mod.rs")])

p("C22","Strategies conserve value: every token ends in a position, market or wallet",
 "Leveraged opening, debt swap, collateral swap and repayment with collateral borrow or withdraw exactly what was asked, credit exactly what the swap router returned to the stated position, charge exactly the configured fee as protocol revenue, and hand every leftover token back to the caller. They reject unsupported combinations (same asset on both sides, isolated or siloed assets where not allowed, non-leveraged accounts), and a router that returns too little can only make the whole call fail or leave a healthy account.",
 ["inputs","histories","fault_sequences","configurations"],"for every strategy, account state, amounts, swap outcome (short, exact, surplus, refund of unspent input) and optional parameters",
 "Router behaviour and account state combine freely; the strategy tests run a few scripted swaps.",
 [C+"strategy.rs",C+"positions/borrow.rs",L+"liquidity.rs"],
 [("multiply, swap_debt, swap_collateral, repay_debt_with_collateral",C+"strategy.rs"),("create_strategy",L+"liquidity.rs"),("handle_create_borrow_strategy",C+"positions/borrow.rs")])

p("C23","Protocol revenue and rewards: claims pay what is due and go where they should",
 "Claiming revenue pays the accumulated protocol revenue of each market, limited by its cash, only to the configured accumulator, and lowers the recorded revenue by exactly what was paid; suppliers' claims are untouched. Rewards added by the owner raise all suppliers' claims in proportion and by the paid amount in total, and revenue otherwise only grows, by fees and interest shares.",
 ["histories","inputs","configurations"],"for every history that produces fees and interest, cash level at claim time and set of claimed markets",
 "Depends on accumulated fees, cash and index; tests claim once from a fresh market.",
 [C+"router.rs",L+"liquidity.rs",L+"utils.rs"],
 [("claim_revenue / add_reward",C+"router.rs"),("claim_revenue / add_reward",L+"liquidity.rs")],
 [("revenue","scaled protocol share of a market",L+"storage/mod.rs")])

p("C24","Risk-parameter and configuration changes are validated and applied safely",
 "Configuration is accepted only if consistent (an asset's threshold above its loan-to-value unless both are zero, ordered utilisation points, tolerance bands within limits, contract addresses, existing assets and categories) and is then stored exactly as given. Existing deposits keep their threshold until someone propagates a new one, which is refused when it would leave the account's health factor under 1.05, while loan-to-value, bonus and fee updates never change a threshold; only the deposits named and the account's own category are affected.",
 ["inputs","histories","configurations"],"for every configuration value, order of reconfigurations and propagation call over live accounts",
 "Propagation is per account and asset after arbitrary history; tests update one account.",
 [C+"config.rs",C+"router.rs",C+"positions/supply.rs",C+"helpers/mod.rs",L+"lib.rs"],
 [("edit_asset_config, e-mode and oracle endpoints",C+"config.rs"),("update_position_threshold",C+"positions/supply.rs"),("init/update_params validation",L+"lib.rs")])

p("C25","Views report what transactions would use",
 "Every query (health factor, account totals, position amounts, prices, market indexes, rates, reserves, liquidation eligibility and liquidation estimate) returns the value that a transaction executed at the same moment would compute, including interest not yet recorded. Queries never change state, and a liquidation paying the estimated amount seizes and refunds what the estimate said.",
 ["inputs","histories"],"for every reachable state, elapsed time and argument of each query",
 "Views recompute logic separately from the transactions; tests compare a few of them with constants.",
 [C+"views.rs",L+"view.rs","common/rates/src/rates.rs"],
 [("views module",C+"views.rs"),("simulate_update_indexes","common/rates/src/rates.rs"),("market views",L+"view.rs")])

p("C26","Events tell observers exactly what happened",
 "The events of every successful operation, applied in order to the state before it, give the state after it: each changed market (indexes, supplied, borrowed, revenue, reserves, time), each changed or closed position, isolated debt, asset, rate, oracle and e-mode configuration has an event whose last values equal what is stored, and the stated amount, index, price, attributes and caller are those of the operation. Clean-up calls are announced after a liquidation exactly for accounts it left hopeless; the aggregator announces every accepted, discarded and published submission, with its round.",
 ["inputs","histories","configurations"],"for every history of operations and configuration changes and every state they reach",
 "Events are emitted apart from the state changes they describe, in many places; the tests look at none of them.",
 ["common/events/src/events.rs",C+"positions/update.rs",L+"utils.rs",L+"liquidity.rs",C+"config.rs",C+"positions/liquidation.rs","price_aggregator/src/utils.rs"],
 [("emit_position_update_event",C+"positions/update.rs"),("emit_market_update",L+"utils.rs"),("check_bad_debt_after_liquidation",C+"positions/liquidation.rs"),("submit_unchecked","price_aggregator/src/utils.rs")])

out=os.path.join(os.path.dirname(__file__),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
