//! Stand-in for the pyth price account decoder (same account layout, only what the program reads).

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum PythError {
    InvalidAccountData,
    BadVersionNumber,
    WrongAccountType,
}

impl std::fmt::Display for PythError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}

pub mod state {
    use super::*;
    use solana_program::pubkey::Pubkey;

    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;
    pub const VERSION: u32 = VERSION_2;

    #[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
    #[repr(transparent)]
    pub struct PriceStatus(pub u32);

    #[allow(non_upper_case_globals)]
    impl PriceStatus {
        pub const Unknown: PriceStatus = PriceStatus(0);
        pub const Trading: PriceStatus = PriceStatus(1);
        pub const Halted: PriceStatus = PriceStatus(2);
        pub const Auction: PriceStatus = PriceStatus(3);
        pub const Ignored: PriceStatus = PriceStatus(4);
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u32,
        pub pub_slot: u64,
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: Pubkey,
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }

    #[derive(Clone, Copy, Debug)]
    #[repr(C)]
    pub struct SolanaPriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u32,
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: Pubkey,
        pub next: Pubkey,
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }
    const _: () = assert!(std::mem::size_of::<SolanaPriceAccount>() == 3312);

    pub fn load_price_account(data: &[u8]) -> Result<&SolanaPriceAccount, PythError> {
        let size = std::mem::size_of::<SolanaPriceAccount>();
        if data.len() < size || data.as_ptr() as usize % 8 != 0 {
            return Err(PythError::InvalidAccountData);
        }
        // plain old data: every bit pattern is valid
        let account = unsafe { &*(data.as_ptr() as *const SolanaPriceAccount) };
        if account.magic != MAGIC {
            return Err(PythError::InvalidAccountData);
        }
        if account.ver != VERSION_2 {
            return Err(PythError::BadVersionNumber);
        }
        if account.atype != 3 {
            return Err(PythError::WrongAccountType);
        }
        Ok(account)
    }
}
