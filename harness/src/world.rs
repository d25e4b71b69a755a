//! The base world: every contract deployed and twelve markets created through
//! the real endpoints. Cases start from a clone of this state.
use crate::enc::*;
use crate::fx::*;
use crate::vm::*;
use multiversx_sc_scenario::multiversx_chain_vm::blockchain::state::BlockchainState;
use num_bigint::BigUint;

pub const NT: usize = 12;
pub const T_EGLD: usize = 0;
pub const T_USDC: usize = 1;
pub const T_UTK: usize = 2;
pub const T_WBTC: usize = 3;
pub const T_XEGLD: usize = 4;
pub const T_XOXNO: usize = 5;
pub const T_LXOXNO: usize = 6;
pub const T_LP: usize = 7;
pub const T_LEGLD: usize = 8;
pub const T_MEX: usize = 9;
pub const T_WEGLD: usize = 10;
pub const T_LP2: usize = 11;

pub const TOKENS: [&str; NT] = [
    "EGLD-000000",
    "USDC-350c4e",
    "UTK-2f80e9",
    "WBTC-5349b3",
    "XEGLD-e413ed",
    "XOXNO-c1293a",
    "LXOXNO-b6cd9d",
    "EGLDUSDC-594e5e",
    "LEGLD-d74da9",
    "MEX-455c57",
    "WEGLD-bd4d79",
    "LXOWEGLD-11aabb",
];
pub const DECIMALS: [u32; NT] = [18, 6, 18, 8, 18, 18, 18, 18, 18, 18, 18, 18];
pub const ACCOUNT_TOKEN: &str = "LEND-abcdef";
pub const FAKE_NFT: &str = "FAKE-123456";
pub const JUNK: &str = "JUNK-111111";
pub const NU: usize = 4; // ordinary users
pub const ONEDEX_ID: u32 = 7;

pub fn tok(i: usize) -> &'static [u8] {
    TOKENS[i].as_bytes()
}
/// Ticker used with the aggregator.
pub fn ticker(i: usize) -> Vec<u8> {
    if i == T_EGLD || i == T_WEGLD {
        return b"EGLD".to_vec();
    }
    let s = TOKENS[i];
    s[..s.find('-').unwrap()].as_bytes().to_vec()
}
pub fn tok_index(id: &[u8]) -> Option<usize> {
    if id == b"EGLD" {
        return Some(0);
    }
    TOKENS.iter().position(|t| t.as_bytes() == id)
}

#[derive(Clone)]
pub struct Addrs {
    pub owner: Addr,
    pub users: Vec<Addr>,
    pub oracles: Vec<Addr>,
    pub controller: Addr,
    pub aggregator: Addr,
    pub template: Addr,
    pub accumulator: Addr,
    pub accumulator2: Addr,
    pub router: Addr,
    pub safeview: Addr,
    pub onedex: Addr,
    pub pair_usdc: Addr,
    pub pair_utk: Addr,
    pub pair_wbtc: Addr,
    pub pair_mex: Addr,
    pub pair_lp2: Addr,
    pub xegld: Addr,
    pub lxoxno: Addr,
    pub legld: Addr,
    pub receiver: Addr,      // same shard as the controller
    pub receiver_far: Addr,  // other shard
    pub pools: Vec<Addr>,
}

impl Addrs {
    pub fn new() -> Self {
        Addrs {
            owner: addr("owner", false, 0),
            users: ["alice", "bob", "carol", "dave"].iter().map(|n| addr(n, false, 0)).collect(),
            oracles: (0..5).map(|i| addr(&format!("oracle{i}"), false, 0)).collect(),
            controller: addr("controller", true, 0),
            aggregator: addr("aggregator", true, 0),
            template: addr("template", true, 0),
            accumulator: addr("accumulator", true, 0),
            accumulator2: addr("accumulator2", true, 0),
            router: addr("router", true, 0),
            safeview: addr("safeview", true, 0),
            onedex: addr("onedex", true, 0),
            pair_usdc: addr("pairusdc", true, 0),
            pair_utk: addr("pairutk", true, 0),
            pair_wbtc: addr("pairwbtc", true, 0),
            pair_mex: addr("pairmex", true, 0),
            pair_lp2: addr("pairlp2", true, 0),
            xegld: addr("xegldsc", true, 0),
            lxoxno: addr("lxoxnosc", true, 0),
            legld: addr("legldsc", true, 0),
            receiver: addr("receiver", true, 0),
            receiver_far: addr("receiverfar", true, 1),
            pools: (0..NT).map(|i| addr(&format!("pool{i}"), true, 0)).collect(),
        }
    }
    /// All accounts whose balances are tracked.
    pub fn aggregator2(&self) -> Addr {
        addr("aggregator2", true, 0)
    }
    pub fn tracked(&self) -> Vec<Addr> {
        let mut v = vec![self.owner.clone()];
        v.extend(self.users.iter().cloned());
        v.push(self.controller.clone());
        v.push(self.accumulator.clone());
        v.push(self.accumulator2.clone());
        v.push(self.router.clone());
        v.push(self.receiver.clone());
        v.push(self.receiver_far.clone());
        v.push(self.aggregator.clone());
        v.extend(self.pools.iter().cloned());
        v
    }
}
pub const A_OWNER: usize = 0;
pub const A_USER0: usize = 1;
pub const A_CTRL: usize = 1 + NU;
pub const A_ACC: usize = A_CTRL + 1;
pub const A_ACC2: usize = A_CTRL + 2;
pub const A_ROUTER: usize = A_CTRL + 3;
pub const A_RECV: usize = A_CTRL + 4;
pub const A_RECVFAR: usize = A_CTRL + 5;
pub const A_AGG: usize = A_CTRL + 6;
pub const A_POOL0: usize = A_CTRL + 7;
pub const NA: usize = A_POOL0 + NT;

pub struct World {
    pub vm: Vm,
    pub a: Addrs,
    pub tracked: Vec<Addr>,
    pub base: BlockchainState,
    /// what the deployment left differently from what was asked, and whose business it is
    pub fresh: Vec<(u32, String)>,
}

pub const START: u64 = 1_700_000_000;

fn must(r: Res, what: &str) {
    if !r.ok {
        eprintln!("world setup failed at {what}: {}", r.msg);
        panic!("world setup failed at {what}: {}", r.msg);
    }
}

pub struct OracleSpec {
    pub t: usize,
    pub contract: Addr,
    pub method: u8,
    pub otype: u8,
    pub source: u8,
    pub onedex: Option<u32>,
}

pub fn oracle_specs(a: &Addrs) -> Vec<OracleSpec> {
    let s = |t, contract: &Addr, method, otype, source, onedex| OracleSpec {
        t,
        contract: contract.clone(),
        method,
        otype,
        source,
        onedex,
    };
    vec![
        s(T_EGLD, &a.pair_usdc, 4, 1, 1, None),
        s(T_USDC, &a.pair_usdc, 4, 1, 1, None),
        s(T_UTK, &a.pair_utk, 4, 1, 1, None),
        s(T_WBTC, &a.pair_wbtc, 3, 1, 1, None),
        s(T_XEGLD, &a.xegld, 0, 2, 3, None),
        s(T_XOXNO, &a.onedex, 4, 1, 5, Some(ONEDEX_ID)),
        s(T_LXOXNO, &a.lxoxno, 0, 2, 2, None),
        s(T_LP, &a.pair_usdc, 0, 3, 1, None),
        s(T_LEGLD, &a.legld, 0, 2, 4, None),
        s(T_MEX, &a.pair_mex, 1, 1, 1, None),
        s(T_WEGLD, &a.pair_usdc, 4, 1, 1, None),
        s(T_LP2, &a.pair_lp2, 0, 3, 1, None),
    ]
}

impl World {
    pub fn new() -> Self {
        let mut vm = Vm::new();
        let a = Addrs::new();
        vm.add_account(&a.owner);
        for u in a.users.iter().chain(a.oracles.iter()) {
            vm.add_account(u);
        }
        vm.set_now(START);
        let b = |x: u128| top_big(&BigUint::from(x));
        let o = a.owner.clone();
        must(
            vm.deploy(
                &o,
                &a.template,
                b"pool",
                vec![tok(1).to_vec(), b(RAYU), b(1), b(1), b(1), b(1), b(RAYU / 2), b(RAYU * 8 / 10), b(1000), b(6)],
            ),
            "template",
        );
        let mut agg_args = vec![b(1)];
        for x in &a.oracles[..3] {
            agg_args.push(x.to_vec());
        }
        must(vm.deploy(&o, &a.aggregator, b"aggregator", agg_args), "aggregator");
        must(vm.call(&o, &a.aggregator, "unpause", vec![], &[]), "agg unpause");
        for (x, p) in [
            (&a.accumulator, &b"m-acc"[..]),
            (&a.accumulator2, b"m-acc"),
            (&a.router, b"m-router"),
            (&a.safeview, b"m-safe"),
            (&a.onedex, b"m-onedex"),
            (&a.pair_usdc, b"m-pair"),
            (&a.pair_utk, b"m-pair"),
            (&a.pair_wbtc, b"m-pair"),
            (&a.pair_mex, b"m-pair"),
            (&a.pair_lp2, b"m-pair"),
            (&a.xegld, b"m-staking"),
            (&a.lxoxno, b"m-staking"),
            (&a.legld, b"m-staking"),
            (&a.receiver, b"m-recv"),
            (&a.receiver_far, b"m-recv"),
        ] {
            must(vm.deploy(&o, x, p, vec![]), "mock");
        }
        must(
            vm.deploy(
                &o,
                &a.controller,
                b"controller",
                vec![
                    a.template.to_vec(),
                    a.aggregator.to_vec(),
                    a.safeview.to_vec(),
                    a.accumulator.to_vec(),
                    a.router.to_vec(),
                ],
            ),
            "controller",
        );
        // account collection
        vm.set_storage(&a.controller, b"account".to_vec(), ACCOUNT_TOKEN.as_bytes().to_vec());
        vm.acc_mut(&a.controller).esdt.set_roles(
            ACCOUNT_TOKEN.as_bytes().to_vec(),
            ["ESDTRoleNFTCreate", "ESDTRoleNFTBurn", "ESDTRoleNFTUpdateAttributes", "ESDTRoleNFTAddQuantity"]
                .iter()
                .map(|r| r.as_bytes().to_vec())
                .collect(),
        );
        // outside world
        for (p, x, y) in [
            (&a.pair_usdc, T_WEGLD, T_USDC),
            (&a.pair_utk, T_WEGLD, T_UTK),
            (&a.pair_wbtc, T_WEGLD, T_WBTC),
            (&a.pair_mex, T_MEX, T_WEGLD),
            (&a.pair_lp2, T_LXOXNO, T_WEGLD),
        ] {
            vm.set_storage(p, b"first".to_vec(), tok(x).to_vec());
            vm.set_storage(p, b"second".to_vec(), tok(y).to_vec());
            vm.set_storage(p, b"state".to_vec(), vec![1]);
            for (i, o2) in [(x, y), (y, x)] {
                let k = Enc::new().raw(b"out").raw(p.as_bytes()).buf(tok(i)).done();
                vm.set_storage(&a.safeview, k, tok(o2).to_vec());
            }
        }
        let id = Enc::new().raw(b"first").u32(ONEDEX_ID).done();
        vm.set_storage(&a.onedex, id, tok(T_XOXNO).to_vec());
        let id = Enc::new().raw(b"second").u32(ONEDEX_ID).done();
        vm.set_storage(&a.onedex, id, tok(T_USDC).to_vec());
        let id = Enc::new().raw(b"pair_state").u32(ONEDEX_ID).done();
        vm.set_storage(&a.onedex, id, vec![1]);
        vm.set_storage(&a.lxoxno, b"main".to_vec(), tok(T_XOXNO).to_vec());
        for t in 0..NT {
            set_round(&mut vm, &a, &ticker(t), &BigUint::from(WADU), START, 1);
        }
        for sp in oracle_specs(&a) {
            let mut args = vec![
                tok(sp.t).to_vec(),
                b(DECIMALS[sp.t] as u128),
                sp.contract.to_vec(),
                b(sp.method as u128),
                b(sp.otype as u128),
                b(sp.source as u128),
                b(200),
                b(500),
                b(600),
            ];
            if let Some(i) = sp.onedex {
                args.push(b(i as u128));
            }
            must(vm.call(&o, &a.controller, "setTokenOracle", args, &[]), "oracle");
        }
        for t in 0..NT {
            let n = vm.acc(&a.controller).nonce;
            let (c, p) = (a.controller.clone(), a.pools[t].clone());
            vm.state_mut().put_new_address(c, n, p);
            let args = vec![
                tok(t).to_vec(),
                b(RAYU),
                b(RAYU / 100),
                b(RAYU / 25),
                b(RAYU / 5),
                b(RAYU * 3),
                b(RAYU / 2),
                b(RAYU * 8 / 10),
                b(1000),
                b(7500),
                b(8000),
                b(500),
                b(100),
                b(1),
                b(1),
                vec![],
                vec![],
                b(50),
                vec![],
                b(1),
                vec![],
                b(DECIMALS[t] as u128),
                vec![],
                vec![],
            ];
            must(vm.call(&o, &a.controller, "createLiquidityPool", args, &[]), "pool");
        }
        let big = BigUint::from(10u32).pow(45);
        for t in 0..NT {
            for i in 0..NU {
                vm.set_balance(&a.users[i], tok(t), &big);
            }
            vm.set_balance(&a.owner, tok(t), &big);
            vm.set_balance(&a.router, tok(t), &big);
            vm.set_balance(&a.receiver, tok(t), &big);
            vm.set_balance(&a.receiver_far, tok(t), &big);
        }
        for i in 0..NU {
            vm.set_balance(&a.users[i], JUNK.as_bytes(), &big);
            for n in 1..4u64 {
                vm.acc_mut(&a.users[i]).esdt.set_esdt_balance(
                    FAKE_NFT.as_bytes().to_vec(),
                    n,
                    &BigUint::from(1u32),
                    Default::default(),
                );
            }
        }
        let base = vm.snapshot();
        let tracked = a.tracked();
        let mut w = World { vm, a, tracked, base, fresh: vec![] };
        let st = w.read();
        let (ctl, a) = (&st.ctl, &w.a);
        use crate::check::c_;
        use num_traits::Zero;
        let mut odd = vec![];
        for (got, want, tags, what) in [
            (&ctl.template, &a.template, c_(&[20, 24]), "market template"),
            (&ctl.aggregator, &a.aggregator, c_(&[18, 24]), "price aggregator"),
            (&ctl.safeview, &a.safeview, c_(&[18, 24]), "safe price view"),
            (&ctl.accumulator, &a.accumulator, c_(&[23, 24]), "accumulator"),
            (&ctl.router, &a.router, c_(&[22, 24]), "swap router"),
        ] {
            if *got != want.to_vec() {
                odd.push((tags, format!("after the deployment: {what} is {}", hex::encode(got))));
            }
        }
        for t in 0..NT {
            if ctl.pools[t].is_some() {
                let p = &st.pools[t];
                if p.sidx != crate::model::ray() || p.bidx != crate::model::ray() || !p.supplied.is_zero() || !p.borrowed.is_zero() || !p.revenue.is_zero() {
                    odd.push((c_(&[3, 4, 5, 24]), format!("new market {t} does not start empty at index one")));
                }
            } else {
                odd.push((c_(&[20, 24]), format!("market {t} is not listed after its creation")));
            }
        }
        w.fresh = odd;
        w
    }
}

pub const RAYU: u128 = 1_000_000_000_000_000_000_000_000_000;
pub const WADU: u128 = 1_000_000_000_000_000_000;

pub fn round_key(from: &[u8]) -> Vec<u8> {
    Enc::new().raw(b"rounds").buf(from).buf(b"USD").done()
}
pub fn set_round(vm: &mut Vm, a: &Addrs, from: &[u8], price: &BigUint, ts: u64, round: u32) {
    let v = Enc::new().big(price).u64(ts).u32(round).done();
    vm.set_storage(&a.aggregator, round_key(from), v);
}
pub fn safe_rate_key(pair: &Addr, t: usize) -> Vec<u8> {
    Enc::new().raw(b"rate").raw(pair.as_bytes()).buf(tok(t)).done()
}
pub fn onedex_rate_key(f: usize, t: usize) -> Vec<u8> {
    Enc::new().raw(b"rate").buf(tok(f)).buf(tok(t)).done()
}
pub fn _unused(_: Dec) {}
