use crate::scen::Check;
pub mod cli;
pub mod cli2;
pub mod cli3;
pub mod cli4;
pub mod cli5;
pub mod cli6;
pub mod cli7;
pub mod cli8;
pub mod lsp;
pub mod lsp2;
pub mod lsp3;
pub mod lsp4;
pub mod lsp5;
pub fn all() -> Vec<Check> {
    let mut v = vec![];
    v.extend(lsp::checks());
    v.extend(cli::checks());
    v.extend(cli2::checks());
    v.extend(cli3::checks());
    v.extend(cli4::checks());
    v.extend(cli5::checks());
    v.extend(cli6::checks());
    v.extend(cli7::checks());
    v.extend(cli8::checks());
    v.extend(lsp2::checks());
    v.extend(lsp3::checks());
    v.extend(lsp4::checks());
    v.extend(lsp5::checks());
    v
}
