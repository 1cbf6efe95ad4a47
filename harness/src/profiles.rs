//! Mixes of operations and configurations for random histories.
use crate::sim::*;

const fn base() -> Profile {
    GENERAL
}

pub const CROWD: Profile = {
    let mut p = base();
    //   place peg edit editp multi take cid ccid call cons given dep refill settle settlx sweep deleg oracle clock bulk
    p.w = [14, 4, 1, 0, 2, 4, 1, 0, 0, 2, 1, 0, 0, 1, 0, 0, 0, 1, 1, 50];
    p.crowd = 1;
    p.expiry = false;
    p.ample = true;
    p.extreme = 0;
    p.rem = 10;
    p
};
pub const QUEUE: Profile = {
    let mut p = CROWD;
    p.w = [14, 2, 0, 0, 1, 3, 1, 0, 0, 1, 1, 0, 0, 1, 0, 0, 0, 1, 1, 50];
    p.crowd = 2;
    p
};
pub const SELF: Profile = {
    let mut p = base();
    p.same_owner = 60;
    p.small_mid = true;
    p
};
pub const PEGS: Profile = {
    let mut p = base();
    p.w = [16, 26, 2, 4, 2, 6, 3, 1, 1, 8, 2, 1, 1, 4, 0, 1, 1, 14, 4, 1];
    p.small_mid = true;
    p
};
pub const TIMED: Profile = {
    let mut p = base();
    p.tif = 80;
    p.w = [26, 10, 2, 2, 4, 6, 2, 1, 1, 8, 2, 1, 1, 3, 0, 1, 1, 3, 16, 1];
    p
};
pub const CANCELS: Profile = {
    let mut p = base();
    p.w = [26, 12, 4, 4, 4, 4, 16, 10, 10, 6, 2, 1, 1, 3, 0, 1, 3, 3, 3, 4];
    p.tif = 10;
    p.fees = 2;
    p
};
pub const FEES_P: Profile = {
    let mut p = base();
    p.fees = 1;
    p.w = [30, 8, 2, 1, 3, 14, 3, 1, 1, 14, 4, 1, 1, 10, 1, 5, 1, 3, 3, 2];
    p.small_mid = true;
    p.tif = 8;
    p
};
pub const TYPES: Profile = {
    let mut p = base();
    p.typ = [4, 3, 4, 3, 4, 4];
    p.w = [40, 14, 2, 2, 4, 12, 2, 1, 1, 4, 1, 1, 1, 2, 0, 0, 0, 4, 4, 1];
    p
};
pub const LIFE: Profile = {
    let mut p = base();
    p.w = [20, 6, 2, 2, 4, 6, 3, 1, 1, 6, 1, 4, 4, 4, 8, 1, 1, 2, 10, 16];
    p
};
pub const BATCH: Profile = {
    let mut p = base();
    p.w = [14, 5, 16, 8, 24, 4, 2, 1, 1, 6, 2, 1, 1, 3, 0, 1, 1, 3, 4, 1];
    p
};
pub const FUND: Profile = {
    let mut p = base();
    p.w = [30, 8, 2, 1, 6, 6, 4, 1, 2, 6, 1, 8, 8, 8, 0, 1, 1, 2, 2, 1];
    p.extreme = 6;
    p
};
