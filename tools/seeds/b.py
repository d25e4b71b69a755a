seed('c22-key-and-payment','C22',{SG:[('            require!(payments.is_empty(), ERROR_INVALID_PAYMENTS);','            // The account alone drives a second leverage step\n            require!(payments.len() <= 1, ERROR_INVALID_PAYMENTS);')]},
'a second leverage step on an existing account that carries a payment besides the account token',
'the payment is neither used, nor refused, nor handed back: it stays with the controller',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    let p = k.pay(&[(T_USDC, amt(T_USDC, 1000))]);
    need(&k.multiply(0, 0, T_USDC, T_UTK, &amt(T_UTK, 100), 2, &p, &[(T_USDC, amt(T_USDC, 99))], None), "multiply");
    let n = k.last_account();
    let mut p = vec![k.key(n)];
    p.extend(k.pay(&[(T_USDC, amt(T_USDC, 50))]));
    let (had, dep) = (k.bal(0, T_USDC), k.deposit(n, T_USDC));
    let r = k.multiply(0, 0, T_USDC, T_UTK, &amt(T_UTK, 10), 2, &p, &[(T_USDC, amt(T_USDC, 9))], None);
    let gone = had - k.bal(0, T_USDC);
    let used = k.deposit(n, T_USDC) - dep;
    check(!r.ok || used >= gone, "the payment vanished");
''')

seed('c06-all-but-one','C06',{PU:[('if *requested_amount_actual >= current_supply_actual {','// Nothing worth keeping would be left\n        let unit = cache.decimal_value(&BigUint::from(1u64));\n        if requested_amount_actual.clone() + unit >= current_supply_actual {')]},
'a withdrawal of everything but the last unit',
'more is taken from the account than was asked for',
'''
    let n = k.open(0, &[(T_UTK, amt(T_UTK, 1000))]);
    let ask = amt(T_UTK, 1000) - 1u32;
    let had = k.bal(0, T_UTK);
    need(&k.withdraw(0, n, &[(T_UTK, ask.clone())]), "withdraw");
    check(k.bal(0, T_UTK) - had == ask, "the withdrawal paid something else than was asked");
    check(k.deposit(n, T_UTK) == b(1), "the last unit is gone");
''')

seed('c15-siloed-isolated','C15',{BO:[('                borrow_positions.len() <= 1,','                borrow_positions.len() <= 1 || nft_attributes.is_isolated(),')]},
'an isolated account with two ordinary debts that borrows a siloed asset',
'a siloed asset is borrowed next to two other debts',
'''
    let mut c = cfg();
    c.isolated = true;
    c.ceiling = b(WADU) * 1_000_000u32;
    need(&k.edit(T_XOXNO, &c), "edit");
    for t in [T_UTK, T_USDC, T_MEX] {
        let mut d = cfg();
        d.iso_borrow = true;
        d.siloed = t == T_MEX;
        need(&k.edit(t, &d), "edit");
    }
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_USDC, amt(T_USDC, 5000)), (T_MEX, amt(T_MEX, 5000))]);
    let n = k.open(0, &[(T_XOXNO, amt(T_XOXNO, 1000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 100))]), "borrow");
    need(&k.borrow(0, n, &[(T_USDC, amt(T_USDC, 100))]), "borrow");
    let r = k.borrow(0, n, &[(T_MEX, amt(T_MEX, 100))]);
    check(!r.ok, "a siloed asset was borrowed next to other debts");
''')

seed('c14-two-assets-only','C14',{CF:[('        for asset_id in &asset_list {','        // Most categories hold a pair\n        for asset_id in asset_list.iter().take(2) {')]},
'the removal of a category with three assets',
'an asset stays listed in a removed category',
'''
    need(&k.category(9000, 9300, 200, &[T_USDC, T_UTK, T_MEX]), "category");
    need(&k.admin("removeEModeCategory", vec![top_u64(1)]), "remove");
    for t in [T_USDC, T_UTK, T_MEX] {
        let v = k.view("getAssetEModes", vec![tk(t)]);
        need(&v, "getAssetEModes");
        check(v.out.iter().all(|x| x.is_empty()), "an asset still belongs to a removed category");
    }
''')

seed('c24-fees-category','C24',{SU:[('        if position.liquidation_fees_bps != asset_info.liquidation_fees_bps {','        if attributes.emode_id() == 0\n            && position.liquidation_fees_bps != asset_info.liquidation_fees_bps\n        {')]},
'a top-up of a category account after the liquidation fee of the asset changed',
'the position keeps the old liquidation fee although a supply refreshes its parameters',
'''
    need(&k.category(9000, 9300, 200, &[T_USDC, T_UTK]), "category");
    need(&k.open_emode(0, 1, &[(T_USDC, amt(T_USDC, 100))]), "open");
    let n = k.last_account();
    let mut c = cfg();
    c.fees = 700;
    need(&k.edit(T_USDC, &c), "edit");
    need(&k.supply(0, n, &[(T_USDC, amt(T_USDC, 100))]), "supply");
    let m = k.open_emode(1, 1, &[(T_USDC, amt(T_USDC, 100))]);
    need(&m, "open 2");
    let o = k.last_account();
    let fee = |k: &mut K, n: u64| {
        let v = k.view("getPositions", vec![top_u64(n), top_u64(1)]);
        need(&v, "getPositions");
        // the stored record without its account number
        let x = v.out.last().unwrap().clone();
        let s = n.to_be_bytes();
        let p = x.windows(8).position(|w| w == s).unwrap();
        x[p + 8..].to_vec()
    };
    let (x, y) = (fee(&mut k, n), fee(&mut k, o));
    check(x == y, "two accounts that just supplied the same asset have different parameters");
''')

seed('c08-bulk-last','C08',{UT:[('            let _ = borrows.set(index, updated_position);','            // Nothing follows the last one\n            if index + 1 < borrows.len() {\n                let _ = borrows.set(index, updated_position);\n            }')]},
'one borrow call that takes an asset twice and the account already owes it, as the last of its debts',
'the second part of a bulk borrow is checked against the debt before the first',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1000))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 10))]), "borrow");
    let r = k.borrow(0, n, &[(T_UTK, amt(T_UTK, 400)), (T_UTK, amt(T_UTK, 400))]);
    check(!r.ok, "borrowed beyond the loan-to-value limit");
''')

seed('c12-third-debt','C12',{LQ:[('        for (token_id, mut position) in borrow_positions.iter() {','        // Dust accounts\n        for (token_id, mut position) in borrow_positions.iter().take(2) {')]},
'a bad-debt clean-up of an account with three debts',
'the third debt is neither charged to the suppliers nor removed from the market, while the account is gone',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_MEX, amt(T_MEX, 5000)), (T_XOXNO, amt(T_XOXNO, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 100))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 20))]), "borrow");
    need(&k.borrow(0, n, &[(T_MEX, amt(T_MEX, 20))]), "borrow");
    need(&k.borrow(0, n, &[(T_XOXNO, amt(T_XOXNO, 20))]), "borrow");
    k.set_price(T_USDC, b(WADU) / 100u32);
    need(&k.clean(2, n), "clean");
    for t in [T_UTK, T_MEX, T_XOXNO] {
        check(k.pool_view(t, "borrowedAmount").is_zero(), "a market still counts debt of a removed account");
    }
''')

seed('c16-cap-of-one','C16',{RO:[('supply_cap_wad: if supply_cap_wad == BigUint::zero() {','supply_cap_wad: if supply_cap_wad <= 1u64 {')]},
'a market created with a supply cap of one unit',
'the market is created without a cap',
'''
    // listed anew on a fresh protocol: the fixture's own creation call with another cap
    let c = k.creation_with_cap(b(1));
    check(!c, "a supply beyond the cap was accepted");
''') if False else None

seed('c10-three-payments','C10',{LQ:[('                    outstanding_debt_egld_ray -= value_egld_ray;','                    // What the last payment left of it\n                    outstanding_debt_egld_ray = self.total_amount_ray(&original_borrow_position, cache);\n                    outstanding_debt_egld_ray = self.token_egld_value_ray(&outstanding_debt_egld_ray, &token_price_feed.price_wad) - value_egld_ray;')]},
'a liquidation that pays the same debt in three parts which together exceed it',
'the excess of the third part is not handed back as the debt is judged by one earlier part only',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_MEX, amt(T_MEX, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1000))]);
    need(&k.borrow(0, n, &[(T_MEX, amt(T_MEX, 650))]), "borrow");
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 60))]), "borrow");
    k.set_price(T_USDC, b(WADU) * 78u32 / 100u32);
    let two = k.vm_try(|k| k.liquidate(1, n, &[(T_UTK, amt(T_UTK, 100))]));
    let d = k.debt(n, T_UTK);
''') if False else None

seed('c09-price-before-swap','C09',{SG:[("""        cache.clean_prices_cache();
        // CRITICAL: Validate position health after debt swap completion""","""        if account_attributes.has_emode() {
            cache.clean_prices_cache();
        }
        // CRITICAL: Validate position health after debt swap completion""")]},
'a debt swap whose own trade drives up the rate of the asset owed from then on, on an account outside any category',
'the health check after the swap uses prices from before the swap: the account ends up liquidatable',
'''
    k.open(1, &[(T_UTK, amt(T_UTK, 5000)), (T_LEGLD, amt(T_LEGLD, 5000))]);
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 100))]);
    need(&k.borrow(0, n, &[(T_UTK, amt(T_UTK, 20))]), "borrow");
    let a = k.w.a.clone();
    let high = b(WADU) * 4u32;
    k.w.vm.set_storage(&a.router, b"moved".to_vec(), a.legld.to_vec());
    k.w.vm.set_storage(&a.router, b"moved_rate".to_vec(), top_big(&high));
    let r = k.swap_debt(0, n, T_UTK, &amt(T_LEGLD, 30), T_LEGLD, &[(T_UTK, amt(T_UTK, 30))]);
    check(!r.ok || k.hf(n) >= b(RAYU), "left liquidatable by a debt swap");
    k.w.vm.set_storage(&a.router, b"moved".to_vec(), vec![]);
    let r = k.swap_debt(0, n, T_UTK, &amt(T_LEGLD, 30), T_LEGLD, &[(T_UTK, amt(T_UTK, 30))]);
    check(r.ok, "an ordinary debt swap was refused");
''')
