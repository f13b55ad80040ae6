use crate::engine::CheckDef;
pub mod conc;
mod arith;
mod effort;
pub mod effects;
mod leak;
mod io;
mod keys;
mod signing;
mod storage;
mod verify1;
pub fn all() -> Vec<CheckDef> {
    let mut v = vec![];
    v.extend(verify1::checks());
    v.extend(storage::checks());
    v.extend(keys::checks());
    v.extend(signing::checks());
    v.extend(io::checks());
    v.extend(conc::checks());
    v.extend(arith::checks());
    v.extend(effort::checks());
    v.extend(effects::checks());
    v.extend(leak::checks());
    v.sort_by_key(|c| c.id);
    v
}
