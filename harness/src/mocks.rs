//! Programmable stand-ins for the contracts outside the repository.

pub mod pair {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait PairMock {
        #[init]
        fn init(&self) {}
        #[view(getFirstTokenId)]
        fn first_token_id(&self) -> TokenIdentifier {
            self.first().get()
        }
        #[view(getSecondTokenId)]
        fn second_token_id(&self) -> TokenIdentifier {
            self.second().get()
        }
        #[view(getReservesAndTotalSupply)]
        fn reserves(&self) -> MultiValue3<BigUint, BigUint, BigUint> {
            (self.r0().get(), self.r1().get(), self.total().get()).into()
        }
        #[storage_mapper("first")]
        fn first(&self) -> SingleValueMapper<TokenIdentifier>;
        #[storage_mapper("second")]
        fn second(&self) -> SingleValueMapper<TokenIdentifier>;
        #[storage_mapper("r0")]
        fn r0(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("r1")]
        fn r1(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("total")]
        fn total(&self) -> SingleValueMapper<BigUint>;
    }
}

pub mod safeview {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait SafeViewMock {
        #[init]
        fn init(&self) {}
        /// rate(pair, input token): output units for 1e18 input units, at an
        /// offset of 15 minutes; any other offset returns a clearly different rate.
        #[view(getSafePriceByTimestampOffset)]
        fn get(
            &self,
            pair: ManagedAddress,
            offset: u64,
            payment: EsdtTokenPayment,
        ) -> EsdtTokenPayment {
            let rate = self.rate(&pair, &payment.token_identifier).get();
            let out = self.out(&pair, &payment.token_identifier).get();
            let mut amount = payment.amount * rate / 1_000_000_000_000_000_000u64;
            if offset != 900 {
                amount *= 2u32;
            }
            EsdtTokenPayment::new(out, 0, amount)
        }
        #[storage_mapper("rate")]
        fn rate(&self, pair: &ManagedAddress, t: &TokenIdentifier) -> SingleValueMapper<BigUint>;
        #[storage_mapper("out")]
        fn out(
            &self,
            pair: &ManagedAddress,
            t: &TokenIdentifier,
        ) -> SingleValueMapper<TokenIdentifier>;
    }
}

pub mod onedex {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait OnedexMock {
        #[init]
        fn init(&self) {}
        #[view(getPairFirstTokenId)]
        fn first_token_id(&self, id: usize) -> TokenIdentifier {
            self.first(id).get()
        }
        #[view(getPairSecondTokenId)]
        fn second_token_id(&self, id: usize) -> TokenIdentifier {
            self.second(id).get()
        }
        #[view(getSafePriceByTimestampOffset)]
        fn get(
            &self,
            from: TokenIdentifier,
            to: TokenIdentifier,
            offset: u64,
            payment: EsdtTokenPayment,
        ) -> EsdtTokenPayment {
            require!(from == payment.token_identifier, "bad input");
            let rate = self.rate(&from, &to).get();
            let mut amount = payment.amount * rate / 1_000_000_000_000_000_000u64;
            if offset != 900 {
                amount *= 2u32;
            }
            EsdtTokenPayment::new(to, 0, amount)
        }
        #[storage_mapper("first")]
        fn first(&self, id: usize) -> SingleValueMapper<TokenIdentifier>;
        #[storage_mapper("second")]
        fn second(&self, id: usize) -> SingleValueMapper<TokenIdentifier>;
        #[storage_mapper("rate")]
        fn rate(&self, f: &TokenIdentifier, t: &TokenIdentifier) -> SingleValueMapper<BigUint>;
    }
}

pub mod staking {
    multiversx_sc::imports!();
    /// Liquid staking (xEGLD / LEGLD / LXOXNO).
    #[multiversx_sc::contract]
    pub trait StakingMock {
        #[init]
        fn init(&self) {}
        #[view(getExchangeRate)]
        fn exchange_rate(&self) -> BigUint {
            self.rate().get()
        }
        #[view(getTokenPrice)]
        fn token_price(&self) -> BigUint {
            self.rate().get()
        }
        #[endpoint(setRate)]
        fn set_rate(&self, rate: BigUint) {
            self.rate().set(rate);
        }
        #[view(getMainToken)]
        fn main_token(&self) -> TokenIdentifier {
            self.main().get()
        }
        #[storage_mapper("rate")]
        fn rate(&self) -> SingleValueMapper<BigUint>;
        #[storage_mapper("main")]
        fn main(&self) -> SingleValueMapper<TokenIdentifier>;
    }
}

pub mod accumulator {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait AccumulatorMock {
        #[init]
        fn init(&self) {}
        #[payable("*")]
        #[endpoint(deposit)]
        fn deposit(&self) {}
    }
}

pub mod router {
    multiversx_sc::imports!();
    #[multiversx_sc::contract]
    pub trait RouterMock {
        #[init]
        fn init(&self) {}
        /// Sends each listed output to the caller, from its own stock.
        #[payable("*")]
        #[endpoint(xo)]
        fn xo(&self, outs: MultiValueEncoded<MultiValue2<EgldOrEsdtTokenIdentifier, BigUint>>) {
            let caller = self.blockchain().get_caller();
            for o in outs {
                let (token, amount) = o.into_tuple();
                self.tx().to(&caller).egld_or_single_esdt(&token, 0, &amount).transfer();
            }
            // the trade may move a rate
            if !self.moved().is_empty() {
                let mut buf = ManagedArgBuffer::new();
                buf.push_arg(self.moved_rate().get());
                self.tx()
                    .to(&self.moved().get())
                    .raw_call(ManagedBuffer::from("setRate"))
                    .arguments_raw(buf)
                    .sync_call();
            }
        }
        #[storage_mapper("moved")]
        fn moved(&self) -> SingleValueMapper<ManagedAddress>;
        #[storage_mapper("moved_rate")]
        fn moved_rate(&self) -> SingleValueMapper<BigUint>;
    }
}

pub mod receiver {
    multiversx_sc::imports!();
    /// Flash-loan borrower whose behaviour is given by its arguments.
    #[multiversx_sc::contract]
    pub trait ReceiverMock {
        #[init]
        fn init(&self) {}
        #[payable("*")]
        #[endpoint(flash)]
        fn flash(
            &self,
            repay: ManagedVec<EgldOrEsdtTokenPayment>,
            target: ManagedAddress,
            func: ManagedBuffer,
            pay: ManagedVec<EgldOrEsdtTokenPayment>,
            func_args: ManagedVec<ManagedBuffer>,
            _original: ManagedAddress,
        ) {
            let caller = self.blockchain().get_caller();
            if !func.is_empty() {
                let mut buf = ManagedArgBuffer::new();
                for a in &func_args {
                    buf.push_arg(a.clone_value());
                }
                if pay.is_empty() {
                    self.tx().to(&target).raw_call(func).arguments_raw(buf).sync_call();
                } else {
                    self.tx()
                        .to(&target)
                        .raw_call(func)
                        .arguments_raw(buf)
                        .payment(pay)
                        .sync_call();
                }
            }
            for p in &repay {
                self.tx()
                    .to(&caller)
                    .egld_or_single_esdt(&p.token_identifier, 0, &p.amount)
                    .transfer();
            }
        }
        #[payable("*")]
        #[endpoint(noop)]
        fn noop(&self) {}
        /// Contract-level user: forwards a call to a contract with its own funds.
        #[endpoint(proxyCall)]
        fn proxy_call(
            &self,
            target: ManagedAddress,
            func: ManagedBuffer,
            args: MultiValueEncoded<ManagedBuffer>,
        ) {
            let mut buf = ManagedArgBuffer::new();
            for a in args {
                buf.push_arg(a);
            }
            self.tx().to(&target).raw_call(func).arguments_raw(buf).sync_call();
        }
    }
}
