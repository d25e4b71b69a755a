use crate::kit::*;
pub fn run() {
    let mut k = K::new();
    let n = k.open(0, &[(T_USDC, amt(T_USDC, 1000))]);
    println!("account {n} {}", k.deposit(n, T_USDC));
    k.open(1, &[(T_UTK, amt(T_UTK, 1000))]);
    let r = k.borrow(0, n, &[(T_UTK, amt(T_UTK, 500))]);
    need(&r, "borrow");
    println!("debt {} hf {}", k.debt(n, T_UTK), k.hf(n));
    k.later(1000000);
    println!("debt {} hf {} idx {}", k.debt(n, T_UTK), k.hf(n), k.pool_view(T_UTK, "getBorrowIndex"));
    let r = k.flash(0, T_UTK, &amt(T_UTK, 10), &[(T_UTK, amt(T_UTK, 11))]);
    need(&r, "flash");
    let r = k.swap_coll(0, n, T_USDC, &amt(T_USDC, 500), T_XEGLD, &[(T_XEGLD, amt(T_XEGLD, 500))]);
    need(&r, "swapc");
    let r = k.swap_debt(0, n, T_UTK, &amt(T_XEGLD, 100), T_XEGLD, &[(T_UTK, amt(T_UTK, 100))]);
    println!("{} {}", r.ok, r.msg);
    let p = k.pay(&[(T_USDC, amt(T_USDC, 1000))]);
    let r = k.multiply(0, 0, T_USDC, T_UTK, &amt(T_UTK, 100), 2, &p, &[(T_USDC, amt(T_USDC, 100))], None);
    need(&r, "multiply");
    let m = k.last_account();
    println!("{m} {}", k.has_key(0, m));
    let r = k.repay_coll(0, m, T_USDC, &amt(T_USDC, 50), T_UTK, false, Some(&[(T_UTK, amt(T_UTK, 50))]));
    need(&r, "rc");
    k.set_price(T_USDC, b(WADU / 10));
    println!("hf {}", k.hf(m));
    let r = k.liquidate(1, m, &[(T_UTK, amt(T_UTK, 50))]);
    need(&r, "liq");
    println!("hf {}", k.hf(m));
}
