# shared text of the demos
HEAD = '''
#![allow(dead_code, unused_imports)]
use tp_client::baseline::{Baseline, BaselineKind};
use tp_client::contract::properties::channels::*;
use tp_client::contract::properties::dynamic::*;
use tp_client::contract::properties::states::*;
use tp_client::contract::*;
use tp_client::object::ObjectHandle;
macro_rules! contract {
    ($C:ident, $S:ident { $($sf:ident : $st:ty),* }, $Ch:ident { $($cf:ident : $ct:ty),* }, $name:expr, $ver:expr) => {
        #[states] pub struct $S { $($sf: $st),* }
        #[channels] pub struct $Ch { $($cf: $ct),* }
        pub struct $C { h: ContractDataHandle, s: $S, c: $Ch }
        impl Contract for $C {
            type States = $S; type Channels = $Ch;
            const ID: ContractId = ContractId { name: $name, version: $ver };
            fn new(h: ContractDataHandle) -> Self { Self { h, s: $S::new(h), c: $Ch::new(h) } }
            fn states(&self) -> &$S { &self.s }
            fn channels(&self) -> &$Ch { &self.c }
            fn handle(&self) -> ContractDataHandle { self.h }
        }
    };
}
'''
