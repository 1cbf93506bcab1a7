//! Contracts of the scalar `Ordinal` implementations, discharged by Kani on the compiled code of /repo.
//! Every harness is loop-free over full-domain symbolic inputs: a complete proof, no bound.
#![allow(dead_code)]
#![allow(unexpected_cfgs)]
#[cfg(kani)]
mod scalar;
#[cfg(kani)]
mod std_contracts;
