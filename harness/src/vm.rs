//! Thin wrapper around the MultiversX Rust VM.
use multiversx_chain_vm::blockchain::state::{AccountData, BlockchainState};
use multiversx_chain_vm::host::context::{TxInput, TxTokenTransfer};
use multiversx_chain_vm::host::execution;
use multiversx_chain_vm::host::runtime::{RuntimeInstanceCallLambdaDefault, RuntimeRef};
use multiversx_chain_vm::types::{VMAddress, VMCodeMetadata};
use multiversx_sc_scenario::executor::debug::ContractContainer;
use multiversx_sc_scenario::multiversx_chain_vm;
use multiversx_sc_scenario::scenario::run_vm::ScenarioVMRunner;
use multiversx_sc_scenario::DebugApi;
use num_bigint::BigUint;
use num_traits::Zero;

pub type Addr = VMAddress;

/// A payment: token identifier (EGLD-000000 for EGLD), nonce, amount.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Pay {
    pub token: Vec<u8>,
    pub nonce: u64,
    pub amount: BigUint,
}

pub const EGLD: &[u8] = b"EGLD-000000";

#[derive(Clone, Debug)]
pub struct Res {
    pub ok: bool,
    pub msg: String,
    pub out: Vec<Vec<u8>>,
    pub logs: Vec<Log>,
}

/// An event: topics[0] is its name.
#[derive(Clone, Debug)]
pub struct Log {
    pub addr: Addr,
    pub topics: Vec<Vec<u8>>,
}
impl Log {
    pub fn is(&self, name: &str) -> bool {
        self.topics.first().is_some_and(|t| t == name.as_bytes())
    }
}
fn logs(r: &multiversx_chain_vm::host::context::TxResult) -> Vec<Log> {
    r.result_logs.iter().map(|l| Log { addr: l.address.clone(), topics: l.topics.clone() }).collect()
}

pub struct Vm {
    pub runner: ScenarioVMRunner,
    runtime: RuntimeRef,
    pub calls: u64,
}

pub fn addr(name: &str, sc: bool, last: u8) -> Addr {
    let mut b = [b'_'; 32];
    let off = if sc {
        for x in b.iter_mut().take(8) {
            *x = 0;
        }
        b[8] = 5;
        b[9] = 0;
        10
    } else {
        0
    };
    let n = name.as_bytes();
    b[off..off + n.len()].copy_from_slice(n);
    b[31] = last;
    VMAddress::new(b)
}

macro_rules! reg {
    ($vm:expr, $path:expr, $b:path) => {{
        use multiversx_sc::contract_base::CallableContractBuilder;
        let c = $b.new_contract_obj::<DebugApi>();
        $vm.runner
            .contract_map_ref
            .lock()
            .register_contract($path.to_vec(), ContractContainer::new(c, None, false));
    }};
}

impl Vm {
    pub fn new() -> Self {
        let runner = ScenarioVMRunner::new();
        let runtime = runner.create_debugger_runtime();
        let vm = Vm { runner, runtime, calls: 0 };
        reg!(vm, b"controller", controller::ContractBuilder);
        reg!(vm, b"pool", liquidity_layer::ContractBuilder);
        reg!(vm, b"aggregator", price_aggregator::ContractBuilder);
        reg!(vm, b"flashmock", flash_mock::ContractBuilder);
        reg!(vm, b"m-pair", crate::mocks::pair::ContractBuilder);
        reg!(vm, b"m-safe", crate::mocks::safeview::ContractBuilder);
        reg!(vm, b"m-onedex", crate::mocks::onedex::ContractBuilder);
        reg!(vm, b"m-staking", crate::mocks::staking::ContractBuilder);
        reg!(vm, b"m-acc", crate::mocks::accumulator::ContractBuilder);
        reg!(vm, b"m-router", crate::mocks::router::ContractBuilder);
        reg!(vm, b"m-recv", crate::mocks::receiver::ContractBuilder);
        vm
    }

    pub fn state(&self) -> &BlockchainState {
        &self.runner.blockchain_mock.state
    }
    pub fn state_mut(&mut self) -> &mut BlockchainState {
        self.runner.blockchain_mock.state.mut_state()
    }
    pub fn snapshot(&self) -> BlockchainState {
        self.state().clone()
    }
    pub fn restore(&mut self, s: &BlockchainState) {
        self.runner.blockchain_mock.state = Default::default();
        *self.state_mut() = s.clone();
    }

    pub fn add_account(&mut self, a: &Addr) {
        let acc = AccountData::new_empty(a.clone());
        self.state_mut().add_account(acc);
    }

    pub fn acc(&self, a: &Addr) -> &AccountData {
        self.state().accounts.get(a).expect("account")
    }
    pub fn has(&self, a: &Addr) -> bool {
        self.state().accounts.contains_key(a)
    }
    pub fn acc_mut(&mut self, a: &Addr) -> &mut AccountData {
        self.state_mut().accounts.get_mut(a).expect("account")
    }

    pub fn storage(&self, a: &Addr, key: &[u8]) -> Vec<u8> {
        self.acc(a).storage.get(key).cloned().unwrap_or_default()
    }
    pub fn set_storage(&mut self, a: &Addr, key: Vec<u8>, v: Vec<u8>) {
        if v.is_empty() {
            self.acc_mut(a).storage.remove(&key);
        } else {
            self.acc_mut(a).storage.insert(key, v);
        }
    }
    pub fn set_balance(&mut self, a: &Addr, token: &[u8], v: &BigUint) {
        if token == EGLD {
            self.acc_mut(a).egld_balance = v.clone();
        } else {
            self.acc_mut(a)
                .esdt
                .set_esdt_balance(token.to_vec(), 0, v, Default::default());
        }
    }
    pub fn balance(&self, a: &Addr, token: &[u8]) -> BigUint {
        match self.state().accounts.get(a) {
            None => BigUint::zero(),
            Some(acc) => {
                if token == EGLD {
                    acc.egld_balance.clone()
                } else {
                    acc.esdt.get_esdt_balance(token, 0)
                }
            }
        }
    }
    pub fn now(&self) -> u64 {
        self.state().current_block_info.block_timestamp
    }
    pub fn set_now(&mut self, t: u64) {
        self.state_mut().current_block_info.block_timestamp = t;
        let n = t / 6;
        self.state_mut().current_block_info.block_nonce = n;
        self.state_mut().current_block_info.block_round = n;
    }

    fn input(&self, from: &Addr, to: &Addr, f: &str, args: Vec<Vec<u8>>, pays: &[Pay]) -> TxInput {
        let mut t = TxInput {
            from: from.clone(),
            to: to.clone(),
            func_name: f.into(),
            args,
            gas_limit: u64::MAX / 4,
            gas_price: 0,
            ..Default::default()
        };
        if pays.len() == 1 && pays[0].token == EGLD {
            t.egld_value = pays[0].amount.clone();
        } else {
            t.esdt_values = pays
                .iter()
                .map(|p| TxTokenTransfer {
                    token_identifier: p.token.clone(),
                    nonce: p.nonce,
                    value: p.amount.clone(),
                })
                .collect();
        }
        t
    }

    pub fn call(&mut self, from: &Addr, to: &Addr, f: &str, args: Vec<Vec<u8>>, pays: &[Pay]) -> Res {
        self.calls += 1;
        let t = self.input(from, to, f, args, pays);
        self.runner.blockchain_mock.state.increase_account_nonce(from);
        let r = execution::commit_call_with_async_and_callback(
            t,
            &mut self.runner.blockchain_mock.state,
            &self.runtime,
            RuntimeInstanceCallLambdaDefault,
        );
        Res { ok: r.result_status.is_success(), msg: r.result_message.clone(), logs: logs(&r), out: r.result_values }
    }

    /// Replaces a contract's code by (the same) code, running its upgrade constructor.
    pub fn upgrade(&mut self, from: &Addr, to: &Addr, path: &[u8]) -> Res {
        self.call(from, to, "upgradeContract", vec![path.to_vec(), vec![5, 0]], &[])
    }

    pub fn query(&mut self, to: &Addr, f: &str, args: Vec<Vec<u8>>) -> Res {
        self.calls += 1;
        let mut t = self.input(to, to, f, args, &[]);
        t.readonly = true;
        let r = execution::execute_query(
            t,
            &mut self.runner.blockchain_mock.state,
            &self.runtime,
            RuntimeInstanceCallLambdaDefault,
        );
        Res { ok: r.result_status.is_success(), msg: r.result_message.clone(), logs: logs(&r), out: r.result_values }
    }

    pub fn deploy(&mut self, from: &Addr, new: &Addr, path: &[u8], args: Vec<Vec<u8>>) -> Res {
        let nonce = self.acc(from).nonce;
        self.state_mut().put_new_address(from.clone(), nonce, new.clone());
        let t = self.input(from, &VMAddress::zero(), "init", args, &[]);
        let (a, r) = execution::commit_deploy(
            t,
            path,
            VMCodeMetadata::all(),
            &mut self.runner.blockchain_mock.state,
            &self.runtime,
            RuntimeInstanceCallLambdaDefault,
        );
        assert!(!r.result_status.is_success() || a == *new);
        Res { ok: r.result_status.is_success(), msg: r.result_message.clone(), logs: logs(&r), out: r.result_values }
    }
}
