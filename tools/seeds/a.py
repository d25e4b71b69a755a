LQ='controller/src/positions/liquidation.rs'; HP='controller/src/helpers/mod.rs'; MA='common/math/src/math.rs'; RA='common/rates/src/rates.rs'
PL='liquidity_layer/src/liquidity.rs'; PU='liquidity_layer/src/utils.rs'; PB='liquidity_layer/src/lib.rs'
BO='controller/src/positions/borrow.rs'; SU='controller/src/positions/supply.rs'; WD='controller/src/positions/withdraw.rs'; RY='controller/src/positions/repay.rs'
UT='controller/src/utils.rs'; VA='controller/src/validation.rs'; SG='controller/src/strategy.rs'; RO='controller/src/router.rs'; CF='controller/src/config.rs'; VI='controller/src/views.rs'; OR='controller/src/oracle/mod.rs'; CL='controller/src/lib.rs'; AG='price_aggregator/src/utils.rs'

seed('c03-params-sync','C03',{PB:[('        self.global_sync(&mut cache);\n        self.emit_market_update(&cache, &asset_price);\n\n        self.parameters().update','        // Slopes only matter from the next accrual on\n        if self.to_decimal_bps(reserve_factor.clone()) != cache.parameters.reserve_factor_bps {\n            self.global_sync(&mut cache);\n        }\n        self.emit_market_update(&cache, &asset_price);\n\n        self.parameters().update')]},
'debt outstanding and time passed since the last touch, then a parameter update that leaves the reserve factor alone',
'a rate curve change is applied to interest of the time before it: debts jump at the moment of the update',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 2000))]);
    let r = k.borrow(0, n, &[(T_UTK, amt(T_UTK, 600))]);
    need(&r, "borrow");
    k.later(10_000_000);
    let before = k.debt(n, T_UTK);
    let r = k.params(T_UTK, [200, 5, 20, 80, 100, 50, 80], 1000);
    need(&r, "params");
    let after = k.debt(n, T_UTK);
    check(close(&before, &after, 2), "a debt changed at the moment the rate curve was replaced");
    let m = k.open(2, &[(T_USDC, amt(T_USDC, 100))]);
    k.later(1000);
    let r = k.borrow(2, m, &[(T_UTK, amt(T_UTK, 1))]);
    need(&r, "borrow 2");
    check(k.debt(n, T_UTK) > after, "interest stopped");
''')

seed('c13-excess-counter','C13',{LQ:[('                egld_asset_amount_ray -= &remaining_excess;\n','')]},
'an unhealthy isolated account whose liquidator pays more than the allowed repayment but not more than the debt',
'the recorded isolated debt falls by the payment before the excess is handed back, so the ceiling can be passed',
'''
    let mut c = cfg();
    c.isolated = true;
    c.ceiling = b(WADU) * 1_000_000u32;
    need(&k.edit(T_XOXNO, &c), "edit");
    let mut d = cfg();
    d.iso_borrow = true;
    need(&k.edit(T_UTK, &d), "edit");
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    let n = k.open(0, &[(T_XOXNO, amt(T_XOXNO, 1000))]);
    let r = k.borrow(0, n, &[(T_UTK, amt(T_UTK, 700))]);
    need(&r, "borrow");
    k.set_price(T_XOXNO, b(WADU) * 85u32 / 100u32);
    let r = k.liquidate(1, n, &[(T_UTK, amt(T_UTK, 700))]);
    need(&r, "liquidate");
    let (d, i) = (k.debt(n, T_UTK), k.isolated(T_XOXNO));
    check(!d.is_zero(), "all debt repaid");
    check(close(&d, &i, 1000), "the recorded isolated debt differs from the debt");
''')

seed('c12-isolated-two-debts','C12',{LQ:[('            if account_attributes.is_isolated() {\n                self.clear_position_isolated_debt(','            if account_attributes.is_isolated() && !self.isolated_asset_debt_usd(&account_attributes.isolated_token()).is_empty() && borrow_positions.len() == 1 {\n                self.clear_position_isolated_debt(')]},
'a bad-debt clean-up of an isolated account with debts in two assets',
'the written-off debt stays counted against the ceiling of the isolated asset for ever',
'''
    let mut c = cfg();
    c.isolated = true;
    c.ceiling = b(WADU) * 1_000_000u32;
    need(&k.edit(T_XOXNO, &c), "edit");
    let mut d = cfg();
    d.iso_borrow = true;
    need(&k.edit(T_UTK, &d), "edit");
    need(&k.edit(T_WBTC, &d), "edit");
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_WBTC, amt(T_WBTC, 5000))]);
    let n = k.open(0, &[(T_XOXNO, amt(T_XOXNO, 100))]);
    let r = k.borrow(0, n, &[(T_UTK, amt(T_UTK, 30)), (T_WBTC, amt(T_WBTC, 30))]);
    need(&r, "borrow");
    k.set_price(T_XOXNO, b(WADU) / 100u32);
    let r = k.clean(2, n);
    need(&r, "clean");
    check(k.isolated(T_XOXNO) < b(WADU), "written-off debt still counts against the ceiling");
''')

seed('c08-bulk-existing','C08',{UT:[('let _ = borrows.set(index, updated_position);','if index > borrows.len() { let _ = borrows.set(index, updated_position); }')]},
'a multi-asset borrow that names an asset the account already owes, followed by another asset',
'the part of a bulk borrow that adds to an existing debt is not counted for the rest of the request',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_WBTC, amt(T_WBTC, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 100))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 10))]), "borrow");
    let r = k.borrow(0, n, &[(T_UTK, amt(T_UTK, 50)), (T_WBTC, amt(T_WBTC, 50))]);
    check(!r.ok, "debt of 110 against collateral that allows 75");
    let r = k.borrow(0, n, &[(T_UTK, amt(T_UTK, 30)), (T_WBTC, amt(T_WBTC, 30))]);
    check(r.ok, "a borrow within the limit was refused");
''')

seed('c09-other-debts','C09',{SG:[('        self.validate_is_healthy(account.token_nonce, &mut cache, None);\n\n        // Execute full','        if self\n            .positions(account.token_nonce, AccountPositionType::Borrow)\n            .contains_key(to_token)\n        {\n            self.validate_is_healthy(account.token_nonce, &mut cache, None);\n        }\n\n        // Execute full')]},
'an account with debts in two assets closing one of them with collateral at a bad swap rate',
'collateral-funded repayment that closes one debt does not check the health of what is left',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_WBTC, amt(T_WBTC, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 100)), (T_XEGLD, amt(T_XEGLD, 1))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 35)), (T_WBTC, amt(T_WBTC, 35))]), "borrow");
    let r = k.repay_coll(0, n, T_USDC, &amt(T_USDC, 99), T_UTK, false, Some(&[(T_UTK, amt(T_UTK, 35))]));
    check(!r.ok || k.hf(n) >= b(RAYU), "left liquidatable by a repayment with collateral");
    let r = k.repay_coll(0, n, T_USDC, &amt(T_USDC, 36), T_UTK, false, Some(&[(T_UTK, amt(T_UTK, 36))]));
    check(r.ok, "a healthy repayment was refused");
''')

seed('c14-threshold-mode','C14',{SU:[('        self.apply_e_mode_to_asset_config(asset_config, &e_mode_category, asset_emode_config);\n\n        let','        if !has_risks {\n            self.apply_e_mode_to_asset_config(asset_config, &e_mode_category, asset_emode_config);\n        }\n\n        let')]},
'a threshold propagation to an account in an efficiency category',
'the account gets the threshold of the asset instead of the one of its category',
'''
    k.category(9000, 9500, 200, &[T_USDC, T_UTK]);
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    need(&k.open_emode(0, 1, &[(T_USDC, amt(T_USDC, 1000))]), "open");
    let n = k.last_account();
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 500))]), "borrow");
    let before = k.hf(n);
    need(&k.threshold_update(T_USDC, true, &[n]), "update");
    check(k.hf(n) == before, "the account lost the threshold of its category");
''')

seed('c15-bulk-count','C15',{VA:[('if !positions_map.contains_key(&payment.token_identifier) {','if !positions_map.contains_key(&payment.token_identifier) && new_positions_count == 0 {')]},
'one deposit call that opens several positions past the limit',
'only the first new position of a bulk deposit is counted against the limit',
'''
    need(&k.admin("setPositionLimits", vec![top_u64(2), top_u64(2)]), "limits");
    let (f, p) = (k.user(0), k.pay(&[(T_USDC, amt(T_USDC, 1)), (T_UTK, amt(T_UTK, 1)), (T_WBTC, amt(T_WBTC, 1))]));
    let r = k.call(&f, "supply", vec![], &p);
    check(!r.ok, "three deposits with a limit of two");
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1)), (T_UTK, amt(T_UTK, 1))]);
    check(!k.supply(0, n, &[(T_WBTC, amt(T_WBTC, 1))]).ok, "a third deposit");
''')

seed('c16-cap-index','C16',{BO:[('&index.borrow_index_ray,\n                    amount.scale(),','&index.supply_index_ray,\n                    amount.scale(),')]},
'a borrow under a cap after interest has accrued',
'the debt counted against the borrow cap leaves out part of the accrued interest',
'''
    let mut c = cfg();
    c.bcap = amt(T_UTK, 600);
    need(&k.edit(T_UTK, &c), "edit");
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 10000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 500))]), "borrow");
    k.later(50_000_000);
    let d = k.debt(n, T_UTK);
    let room = amt(T_UTK, 600) - &d;
    let r = k.borrow(0, n, &[(T_UTK, &room + amt(T_UTK, 1))]);
    check(!r.ok, "borrowed past the cap");
    let r = k.borrow(0, n, &[(T_UTK, room - 10u32)]);
    check(r.ok, "refused below the cap");
''')

seed('c17-fee-truncated','C17',{PL:[('&self.mul_half_up(amount, &(self.bps() + fees.clone()), RAY_PRECISION),','&(amount.clone() * (self.bps() + fees.clone()) / self.bps()),')]},
'a flash loan whose fee has a fraction of half a unit or more',
'the fee is truncated: a loan that repays one unit too little goes through',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let r = k.flash(0, T_UTK, &b(150), &[(T_UTK, b(150))]);
    check(!r.ok, "flash loan of 150 with a fee of 0.75 repaid with 150");
    let r = k.flash(0, T_UTK, &b(150), &[(T_UTK, b(151))]);
    check(r.ok, "flash loan repaid in full was refused");
''')

seed('c18-lower-band','C18',{OR:[('                    &tolerances.last_upper_ratio_bps,\n                    &tolerances.last_lower_ratio_bps,','                    &tolerances.last_upper_ratio_bps,\n                    &tolerances.first_lower_ratio_bps,')]},
'an on-chain price between the two tolerances on the low side of the off-chain one only',
'the two sources are not averaged in the lower half of the second tolerance: the operation is refused',
'''
    k.open(1, &[(T_USDC, amt(T_USDC, 1000))]);
    let n = k.open(0, &[(T_UTK, amt(T_UTK, 1000))]);
    let a = k.w.a.clone();
    for (pct, what) in [(103u32, "above"), (97, "below")] {
        k.w.vm.set_storage(&a.safeview, safe_rate_key(&a.pair_utk, T_UTK), top_big(&(b(WADU) * pct / 100u32)));
        let r = k.borrow(0, n, &[(T_USDC, amt(T_USDC, 1))]);
        check(r.ok, what);
        let r = k.borrow(0, n, &[(T_USDC, amt(T_USDC, 1))]);
        check(r.ok, "borrow between the two tolerances refused");
    }
''')

seed('c19-expired-kept','C19',{AG:[('            submissions.clear();\n            first_sub_time_mapper.set(current_timestamp);','            submissions.remove(&self.blockchain().get_caller());\n            first_sub_time_mapper.set(current_timestamp);')]},
'a round that expires with submissions of another oracle pending',
'a submission of an expired round counts towards the next one',
'''
    need(&k.agg_admin("setSubmissionCount", vec![top_u64(2)]), "count");
    let sub = |k: &mut K, o: usize, p: u32| {
        let now = k.w.vm.now();
        k.agg(o, "submit", vec![b"AAA".to_vec(), b"USD".to_vec(), top_u64(now), top_big(&b(p as u128))])
    };
    need(&sub(&mut k, 0, 10), "submit");
    k.later(4000);
    need(&sub(&mut k, 1, 100), "submit");
    let v = k.agg_view("latestPriceFeed", vec![b"AAA".to_vec(), b"USD".to_vec()]);
    check(!v.ok, "one oracle was enough for a round of two");
    need(&sub(&mut k, 2, 102), "submit");
    let v = k.agg_view("latestPriceFeed", vec![b"AAA".to_vec(), b"USD".to_vec()]);
    check(v.ok, "two fresh submissions did not publish");
    check(v.out.iter().any(|x| *x == top_big(&b(101)) || x.ends_with(&[0, 0, 0, 1, 101])), "not the median of the fresh submissions");
''')

seed('c20-swapdebt-paused','C20',{SG:[('        self.require_not_paused();\n        // Validate tokens are different - prevent no-op swaps\n        require!(\n            existing_debt_token','        // Validate tokens are different - prevent no-op swaps\n        require!(\n            existing_debt_token')]},
'a debt swap while the protocol is paused',
'debt swaps move funds while the protocol is paused',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_WBTC, amt(T_WBTC, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 100))]), "borrow");
    need(&k.admin("pause", vec![]), "pause");
    let r = k.swap_debt(0, n, T_UTK, &amt(T_WBTC, 110), T_WBTC, &[(T_UTK, amt(T_UTK, 110))]);
    check(!r.ok, "swapped a debt while paused");
    need(&k.admin("unpause", vec![]), "unpause");
    let r = k.swap_debt(0, n, T_UTK, &amt(T_WBTC, 110), T_WBTC, &[(T_UTK, amt(T_UTK, 110))]);
    check(r.ok, "swap refused after unpausing");
''')

seed('c21-last-account','C21',{WD:[('self.accounts().swap_remove(&account_payment.token_nonce);\n','if self.accounts().len() > 1 {\n                self.accounts().swap_remove(&account_payment.token_nonce);\n            }\n')]},
'the only account of the protocol being emptied',
'the last account stays listed as active after its token was destroyed, so it can be used again',
'''
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 10))]);
    need(&k.withdraw(0, n, &[(T_USDC, amt(T_USDC, 10))]), "withdraw");
    check(!k.has_key(0, n), "token survived");
    let v = k.view("getAccounts", vec![]);
    need(&v, "getAccounts");
    check(v.out.iter().all(|x| x.is_empty()), "a closed account is still listed");
    let m = k.open(1, &[(T_USDC, amt(T_USDC, 10))]);
    check(m != n, "an account number was used twice");
''')

seed('c22-leftovers','C22',{SG:[('                refunds.push(payment.clone());','                if payment.token_identifier != *from_token {\n                    refunds.push(payment.clone());\n                }')]},
'a swap that returns part of the tokens it was given',
'unused input of a swap stays in the controller instead of going back to the caller',
'''
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1000))]);
    let before = k.bal(0, T_USDC);
    let r = k.swap_coll(0, n, T_USDC, &amt(T_USDC, 500), T_XEGLD, &[(T_XEGLD, amt(T_XEGLD, 490)), (T_USDC, amt(T_USDC, 9)), (T_UTK, amt(T_UTK, 1))]);
    need(&r, "swap");
    check(k.bal(0, T_USDC) == before + amt(T_USDC, 9), "leftover tokens did not reach the caller");
''')

seed('c23-partial-claim','C23',{PL:[('let scaled_to_burn = if amount_to_transfer >= treasury_actual {','let scaled_to_burn = if amount_to_transfer >= treasury_actual || amount_to_transfer == current_reserves {')]},
'a claim while the market holds less cash than the revenue',
'a claim limited by cash wipes out the whole recorded revenue',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 10000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 1000))]), "borrow");
    k.later(30_000_000);
    let m = k.open(2, &[(T_UTK, amt(T_UTK, 5))]);
    let rev = k.pool_view(T_UTK, "protocolRevenue");
    check(rev > amt(T_UTK, 10), "no revenue");
    need(&k.admin("claimRevenue", vec![tk(T_UTK)]), "claim");
    let left = k.pool_view(T_UTK, "protocolRevenue");
    check(close(&(rev - amt(T_UTK, 5)), &left, 1000), "revenue fell by more than what was paid");
    check(m > 0, "");
''')

seed('c24-buffer','C24',{SU:[('Some(self.to_decimal(BigUint::from(20u64), 0usize)),','if deposit_positions.len() > 1 { None } else { Some(self.to_decimal(BigUint::from(20u64), 0usize)) },')]},
'a lowered threshold propagated to an account with several deposits that would end between 1 and 1.05',
'the 5% buffer is not enforced for accounts with more than one deposit',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 500)), (T_XEGLD, amt(T_XEGLD, 500))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 740))]), "borrow");
    let mut c = cfg();
    c.ltv = 7000;
    c.thr = 7400;
    need(&k.edit(T_USDC, &c), "edit");
    let before = k.hf(n);
    let r = k.threshold_update(T_USDC, true, &[n]);
    check(!r.ok && k.hf(n) == before, "a new threshold left the account under 1.05");
''')

seed('c25-at-one','C25',{VI:[('health_factor < self.ray()\n','health_factor <= self.ray()\n')]},
'an account whose health factor is exactly one',
'the query says an account can be liquidated that a liquidation refuses',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 750))]), "borrow");
    k.set_price(T_USDC, b(WADU) * 9375u32 / 10000u32);
    check(k.hf(n) == b(RAYU), "not at one");
    let v = k.view("canBeLiquidated", vec![top_u64(n)]);
    need(&v, "canBeLiquidated");
    let says = v.out[0] == vec![1u8];
    let r = k.liquidate(1, n, &[(T_UTK, amt(T_UTK, 10))]);
    check(says == r.ok, "the query and the liquidation disagree");
''')

seed('c02-cap-full','C02',{RA:[('let annual_rate = if utilization < parameters.mid_utilization_ray {','let lent_out = utilization >= self.ray();\n        let annual_rate = if utilization < parameters.mid_utilization_ray {'),('let capped_rate = if annual_rate > parameters.max_borrow_rate_ray {','let capped_rate = if annual_rate > parameters.max_borrow_rate_ray && !lent_out {')]},
'a market lent out completely whose curve ends above the maximum rate',
'the maximum borrow rate is not applied at full utilisation',
'''
    need(&k.params(T_UTK, [60, 1, 4, 20, 300, 50, 80], 1000), "params");
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 10000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 1000))]), "borrow");
    let year_ms = 31_556_926_000u64;
    let cap = usd_ray(60) / year_ms;
    let r = k.pool_view(T_UTK, "borrowRate");
    check(r <= cap + 1u32, "borrow rate above the maximum");
''')

seed('c01-tie-down','C01',{MA:[('let half_factor = &factor / 2u64;','let half_factor = (&factor - 1u64) / 2u64;')]},
'a value exactly half-way between two representable ones when precision is reduced',
'ties are rounded down when a value is rescaled',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let r = k.flash(0, T_UTK, &b(300), &[(T_UTK, b(301))]);
    check(!r.ok, "a fee of 1.5 units was rounded down");
    let r = k.flash(0, T_UTK, &b(300), &[(T_UTK, b(302))]);
    check(r.ok, "a fee of 1.5 units is 2");
''')

seed('c04-surplus-twice','C04',{PL:[('let protocol_fee = repayment - amount.clone();','let protocol_fee = repayment.clone() - amount.clone() + (repayment - required_repayment);')]},
'a flash loan repaid with more than required',
'the surplus of a flash loan repayment is credited twice: claims exceed what the market holds',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    need(&k.flash(0, T_UTK, &amt(T_UTK, 100), &[(T_UTK, amt(T_UTK, 150))]), "flash");
    let (s, c) = (k.pool_view(T_UTK, "suppliedAmount"), k.cash(T_UTK));
    check(s <= c + 10u32, "suppliers and revenue are owed more than the market holds");
''')

seed('c07-first-borrow','C07',{PL:[('let scaled_amount = cache.calculate_scaled_borrow(amount);','let scaled_amount = if cache.borrowed_ray == self.ray_zero() {\n            // Nothing borrowed yet\n            self.rescale_half_up(amount, RAY_PRECISION)\n        } else {\n            cache.calculate_scaled_borrow(amount)\n        };')]},
'a market whose debt was repaid completely after interest accrued, and then a new borrow',
'the first borrow after all debt was repaid records more debt than was paid out',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 10000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 800))]), "borrow");
    k.later(30_000_000);
    need(&k.repay(0, n, &[(T_UTK, amt(T_UTK, 2000))]), "repay");
    check(k.debt(n, T_UTK).is_zero(), "not repaid");
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 100))]), "borrow");
    check(close(&k.debt(n, T_UTK), &amt(T_UTK, 100), 1), "the new debt is not the amount borrowed");
''')

seed('c10-two-debts','C10',{LQ:[('adjusted_payment.amount -= &excess_token_units;','if borrows.len() == 1 {\n                        adjusted_payment.amount -= &excess_token_units;\n                    }')]},
'an overpaying liquidation of one debt of an account with several',
'the excess of a liquidation payment is refunded by the market and by the controller',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_WBTC, amt(T_WBTC, 5000))]);
    let n = k.open(0, &[(T_XEGLD, amt(T_XEGLD, 100))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 5)), (T_WBTC, amt(T_WBTC, 65))]), "borrow");
    k.set_price(T_XEGLD, b(WADU) * 85u32 / 100u32);
    let (bal, debt) = (k.bal(2, T_UTK), k.debt(n, T_UTK));
    let r = k.liquidate(2, n, &[(T_UTK, amt(T_UTK, 9))]);
    check(r.ok, "an overpaid liquidation was refused");
    let (paid, retired) = (bal - k.bal(2, T_UTK), debt - k.debt(n, T_UTK));
    check(close(&paid, &retired, 2), "the liquidator did not pay what was retired");
    check(k.w.vm.balance(&k.ctl(), tok(T_UTK)).is_zero(), "tokens stranded");
''')

seed('c05-last-revenue','C05',{PL:[('cache.supplied_ray -= &actual_supplied_burn_ray;','if cache.supplied_ray > actual_supplied_burn_ray {\n            cache.supplied_ray -= &actual_supplied_burn_ray;\n        }')]},
'a full revenue claim in a market that every supplier has left',
'the market keeps counting claimed revenue as supplied',
'''
    k.open(1, &[(T_USDC, amt(T_USDC, 1000))]);
    let m = k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 10000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 800))]), "borrow");
    k.later(30_000_000);
    need(&k.repay(0, n, &[(T_UTK, amt(T_UTK, 2000))]), "repay");
    need(&k.withdraw(1, m, &[(T_UTK, amt(T_UTK, 5000))]), "withdraw");
    need(&k.admin("claimRevenue", vec![tk(T_UTK)]), "claim");
    let (s, r) = (k.pool_view(T_UTK, "getSuppliedScaled"), k.pool_view(T_UTK, "getRevenueScaled"));
    check(s == r, "no accounts left, but the market counts supply beyond its revenue");
''')

seed('c11-second-target','C11',{HP:[('/ 100u32 + ray.into_raw_units(); // 1.01 RAY','/ 50u32 + ray.into_raw_units(); // 1.01 RAY')]},
'an unhealthy account that cannot reach the first target',
'the second liquidation target is higher than stated, so the liquidator gets a larger bonus',
'''
    let mut c = cfg();
    c.ltv = 8500;
    c.thr = 9000;
    c.bonus = 500;
    need(&k.edit(T_XEGLD, &c), "edit");
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    let n = k.open(0, &[(T_XEGLD, amt(T_XEGLD, 100))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 84))]), "borrow");
    k.set_price(T_XEGLD, b(WADU) * 89u32 / 100u32);
    // all collateral goes; bonus 5% + 10% * 2 * (1 - hf / 1.01)
    let hf = k.hf(n);
    let target = usd_ray(101);
    let short = b(RAYU) - hf * b(RAYU) / target;
    let bonus = usd_ray(5) + short * 2u32 / 10u32;
    let repaid = amt(T_UTK, 89) * b(RAYU) / (b(RAYU) + bonus);
    need(&k.liquidate(1, n, &[(T_UTK, amt(T_UTK, 84))]), "liquidate");
    let left = k.debt(n, T_UTK);
    check(close(&(amt(T_UTK, 84) - repaid), &left, 1000), "bonus differs from the one for the second target");
''')

seed('c26-partial-claim-event','C26',{PL:[('''            // Burn the calculated amount
            cache.revenue_ray -= &actual_revenue_burn_ray;
            cache.supplied_ray -= &actual_supplied_burn_ray;

            self.emit_market_update(&cache, price);
            return payment;''','''            if actual_revenue_burn_ray < revenue_scaled {
                self.emit_market_update(&cache, price);
            }

            // Burn the calculated amount
            cache.revenue_ray -= &actual_revenue_burn_ray;
            cache.supplied_ray -= &actual_supplied_burn_ray;

            if actual_revenue_burn_ray == revenue_scaled {
                self.emit_market_update(&cache, price);
            }
            return payment;''')]},
'a claim while the market holds less cash than the revenue',
'observers are told revenue and supplied amounts from before the claim',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 10000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 1000))]), "borrow");
    k.later(30_000_000);
    k.open(2, &[(T_UTK, amt(T_UTK, 5))]);
    let r = k.admin("claimRevenue", vec![tk(T_UTK)]);
    need(&r, "claim");
    let a = k.w.a.pools[T_UTK].clone();
    let l: Vec<_> = r.logs.iter().filter(|l| l.addr == a && l.is("update_market_state")).collect();
    let e = l.last().expect("no market event");
    let told = Rd::new(&e.topics[7]).dec().v;
    let real = Rd::new(&k.w.vm.storage(&a, b"revenue")).dec().v;
    check(told == real, "the event does not tell the revenue left");
''')

seed('c26-unannounced','C26',{LQ:[('''        let can_clean_bad_debt = self.can_clean_bad_debt_positions(
            cache,
            &remaining_debt_egld,
            &remaining_collateral_egld,
        );

        if can_clean_bad_debt {
            self.emit''','''        let can_clean_bad_debt = total_collateral > seized_collateral_egld
            && self.can_clean_bad_debt_positions(
                cache,
                &remaining_debt_egld,
                &remaining_collateral_egld,
            );

        if can_clean_bad_debt {
            self.emit''')]},
'a liquidation that takes all the collateral of an account and leaves debt',
'nobody is called to write off an account that has nothing left but debt',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 740))]), "borrow");
    k.set_price(T_USDC, b(WADU) * 50u32 / 100u32);
    let r = k.liquidate(1, n, &[(T_UTK, amt(T_UTK, 730))]);
    need(&r, "liquidate");
    check(k.deposit(n, T_USDC).is_zero() && !k.debt(n, T_UTK).is_zero(), "not the situation wanted");
    let told = r.logs.iter().any(|l| l.addr == k.w.a.controller && l.is("emit_trigger_clean_bad_debt") && u64_of(&l.topics[1]) == n);
    check(told, "the clean-up was not announced");
    need(&k.clean(3, n), "clean");
''')
