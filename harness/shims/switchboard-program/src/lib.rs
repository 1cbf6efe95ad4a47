//! Stand-in for the switchboard v1 result account (only what the program reads).
//! Layout: 1 byte account type, 32 bytes parent, then the packed round result.

use solana_program::program_error::ProgramError;

#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResultAccountData {
    pub parent: [u8; 32],
    pub result: FastRoundResult,
}

pub const LEN: usize = 1 + 32 + 4 + 4 + 8 * 5;

impl FastRoundResultAccountData {
    pub fn deserialize(data: &[u8]) -> Result<Self, ProgramError> {
        if data.len() < LEN {
            return Err(ProgramError::InvalidAccountData);
        }
        fn take<const N: usize>(data: &[u8], at: &mut usize) -> [u8; N] {
            let out = data[*at..*at + N].try_into().unwrap();
            *at += N;
            out
        }
        let at = &mut 1;
        Ok(Self {
            parent: take(data, at),
            result: FastRoundResult {
                num_success: i32::from_le_bytes(take(data, at)),
                num_error: i32::from_le_bytes(take(data, at)),
                result: f64::from_le_bytes(take(data, at)),
                round_open_slot: u64::from_le_bytes(take(data, at)),
                round_open_timestamp: i64::from_le_bytes(take(data, at)),
                min_response: f64::from_le_bytes(take(data, at)),
                max_response: f64::from_le_bytes(take(data, at)),
            },
        })
    }
}
