#![allow(unexpected_cfgs)]
mod api;
#[cfg(any(c29, c30, c31, c32, c33, c34, c35, c36, c37, c38, c39, c40, c41, c42, c43))]
mod stm;
#[allow(dead_code)]
mod util;
#[cfg(c01)]
mod c01;
#[cfg(c02)]
mod c02;
#[cfg(c03)]
mod c03;
#[cfg(c04)]
mod c04;
#[cfg(c05)]
mod c05;
#[cfg(c06)]
mod c06;
#[cfg(c07)]
mod c07;
#[cfg(c08)]
mod c08;
#[cfg(c09)]
mod c09;
#[cfg(c10)]
mod c10;
#[cfg(c11)]
mod c11;
#[cfg(c12)]
mod c12;
#[cfg(c13)]
mod c13;
#[cfg(c16)]
mod c16;
#[cfg(c14)]
mod c14;
#[cfg(c15)]
mod c15;
#[cfg(c17)]
mod c17;
#[cfg(c18)]
mod c18;
#[cfg(c19)]
mod c19;
#[cfg(c20)]
mod c20;
#[cfg(c21)]
mod c21;
#[cfg(c22)]
mod c22;
#[cfg(c23)]
mod c23;
#[cfg(c24)]
mod c24;
#[cfg(c25)]
mod c25;
#[cfg(c26)]
mod c26;
#[cfg(c27)]
mod c27;
#[cfg(c28)]
mod c28;
#[cfg(c29)]
mod c29;
#[cfg(c30)]
mod c30;
#[cfg(c31)]
mod c31;
#[cfg(c32)]
mod c32;
#[cfg(c33)]
mod c33;
#[cfg(c34)]
mod c34;
#[cfg(c35)]
mod c35;
#[cfg(c36)]
mod c36;
#[cfg(c37)]
mod c37;
#[cfg(c38)]
mod c38;
#[cfg(c39)]
mod c39;
#[cfg(c40)]
mod c40;
#[cfg(c41)]
mod c41;
#[cfg(c42)]
mod c42;
#[cfg(c43)]
mod c43;
