//! Building blocks shared by the checks that run the real state store and runtime.

use std::sync::Arc;

use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, TemplateStorage};
use svm_types::*;
use tokio::runtime::Runtime as Tokio;

pub fn tokio() -> Arc<Tokio> {
    Arc::new(
        tokio::runtime::Builder::new_current_thread()
            .enable_all()
            .build()
            .unwrap(),
    )
}

pub fn addr(b: u8) -> Address {
    Address::repeat(b)
}

/// A genesis configuration without templates: cheap to create.
pub fn no_genesis() -> GenesisConfig {
    GenesisConfig { templates: Default::default() }
}

pub fn template_with_layout(sizes: &[u32]) -> Template {
    let code = CodeSection::new(CodeKind::Wasm, vec![], 0, GasMode::Fixed, 0);
    let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(0, sizes)));
    Template::new(code, data, CtorsSection::new(vec![]))
}

pub async fn put_template(gs: &GlobalState, t: &TemplateAddr, sizes: &[u32]) {
    let template = template_with_layout(sizes);
    TemplateStorage::create(gs.clone(), t, template.sections().clone(), Sections::with_capacity(0))
        .await
        .unwrap();
}

pub async fn put_account(gs: &GlobalState, a: &Address, t: &TemplateAddr, balance: u64, counter: u128) -> AccountStorage {
    AccountStorage::create(gs.clone(), a, format!("{}", a.to_string()), t.clone(), balance, counter)
        .await
        .unwrap()
}
