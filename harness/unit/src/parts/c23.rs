//! C23: each network uses its own chain id and providers.
use crate::rpc::NETWORKS;
use evm_minter::evm_config::EvmNetwork;
use evm_minter::rpc_client::providers::{get_one_provider_ankr, get_one_provider_public_node, get_providers, Provider};
use evm_minter::storage::set_rpc_api_key;
use evm_rpc_types::RpcServices;
use pbt::{ensure, ensure_eq, Ctx, Info};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// The chain that an endpoint of one of the three provider companies serves.
/// Ok(None): another company, of which nothing is known here.
fn chain_of(url: &str) -> Result<Option<(Company, u64)>, String> {
    let rest = url.strip_prefix("https://").ok_or_else(|| format!("not an https URL: {url}"))?;
    let mut parts = rest.split('/');
    let host = parts.next().unwrap_or("");
    let first = parts.next().unwrap_or("");
    let find = |table: &[(&str, u64)], name: &str| table.iter().find(|t| t.0 == name).map(|t| t.1).ok_or_else(|| format!("unknown endpoint {url}"));
    if host == "rpc.ankr.com" {
        const T: [(&str, u64); 10] = [
            ("eth", 1), ("eth_sepolia", 11155111), ("arbitrum", 42161), ("bsc", 56), ("bsc_testnet_chapel", 97),
            ("polygon", 137), ("optimism", 10), ("base", 8453), ("avalanche", 43114), ("fantom", 250),
        ];
        return find(&T, first).map(|c| Some((Company::Ankr, c)));
    }
    if let Some(name) = host.strip_suffix("-rpc.publicnode.com") {
        const T: [(&str, u64); 10] = [
            ("ethereum", 1), ("ethereum-sepolia", 11155111), ("arbitrum-one", 42161), ("bsc", 56), ("bsc-testnet", 97),
            ("polygon-bor", 137), ("optimism", 10), ("base", 8453), ("avalanche-c-chain", 43114), ("fantom", 250),
        ];
        return find(&T, name).map(|c| Some((Company::PublicNode, c)));
    }
    if let Some(name) = host.strip_suffix(".llamarpc.com") {
        const T: [(&str, u64); 6] = [("eth", 1), ("arbitrum", 42161), ("binance", 56), ("polygon", 137), ("optimism", 10), ("base", 8453)];
        return find(&T, name).map(|c| Some((Company::Llama, c)));
    }
    Ok(None)
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Company {
    Ankr,
    Llama,
    PublicNode,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    network: usize,
    which: u8,
    ankr: Option<String>,
    llama: Option<String>,
    other: u64,
}

pub fn run(ctx: &mut Ctx) {
    ctx.check(
        "chain ids",
        "every case maps one of the ten networks to its chain id and back, and asks for one other id",
        40_000,
        || {
            let near = (0usize..10, -3i64..=3).prop_map(|(i, d)| (NETWORKS[i].1 as i64 + d).max(0) as u64);
            let shifted = (0usize..10, 1u32..40).prop_map(|(i, s)| NETWORKS[i].1.wrapping_add(1u64 << (24 + s)));
            let cut = (0usize..10, 1u32..24).prop_map(|(i, s)| NETWORKS[i].1 & ((1u64 << s) - 1));
            (0usize..10, prop_oneof![2 => any::<u64>(), 2 => 0u64..50_000, 2 => near, 1 => shifted, 1 => cut])
        },
        |(n, other)| {
            let (net, id) = NETWORKS[*n];
            ensure_eq!(net.chain_id(), id, "chain id of {net:?}");
            ensure!(EvmNetwork::try_from(id) == Ok(net), "{id} maps to {:?}", EvmNetwork::try_from(id));
            let bytes = minicbor::to_vec(net).map_err(|e| e.to_string())?;
            ensure_eq!(hex::encode(&bytes), hex::encode(crate::V::Int(id).encode(false)), "stored form of {net:?}");
            ensure!(minicbor::decode::<EvmNetwork>(&bytes).ok() == Some(net), "stored form of {net:?} reads back wrong");
            let known = NETWORKS.iter().find(|x| x.1 == *other).map(|x| x.0);
            ensure!(EvmNetwork::try_from(*other).ok() == known, "{other} maps to {:?}", EvmNetwork::try_from(*other));
            let stored = crate::V::Int(*other).encode(false);
            ensure!(minicbor::decode::<EvmNetwork>(&stored).ok() == known, "stored id {other} reads as a network");
            Ok(Info::nontrivial(true).label_if(known.is_none(), "unknown id"))
        },
    );
    ctx.check(
        "providers",
        "every case inspects the provider list of one network for one kind of client",
        6_000,
        || {
            // The keys of the two companies never coincide (those of earlier cases stay set).
            (0usize..10, 0u8..3, prop::option::of("a[a-z0-9]{0,12}"), prop::option::of("l[a-z0-9]{0,12}"), any::<u64>()).prop_map(|(network, which, ankr, llama, other)| Case { network, which, ankr, llama, other })
        },
        |c| {
            crate::env();
            if let Some(k) = &c.ankr {
                set_rpc_api_key(Provider::Ankr, k.clone());
            }
            if let Some(k) = &c.llama {
                set_rpc_api_key(Provider::LlamaNodes, k.clone());
            }
            let (net, id) = NETWORKS[c.network];
            let services = match c.which {
                0 => get_providers(net),
                1 => get_one_provider_ankr(net),
                _ => get_one_provider_public_node(net),
            };
            let RpcServices::Custom { chain_id, services } = services else {
                return Err(format!("no custom providers for {net:?}"));
            };
            ensure_eq!(chain_id, id, "chain id sent to the providers of {net:?}");
            ensure!(!services.is_empty(), "no provider for {net:?}");
            let mut hosts = vec![];
            for s in &services {
                if let Some((company, chain)) = chain_of(&s.url)? {
                    ensure_eq!(chain, id, "{net:?} asks {}", s.url);
                    let last = s.url.rsplit('/').next().unwrap_or("");
                    // A key is only ever shown to the company it belongs to.
                    if let (Some(k), true) = (&c.ankr, company != Company::Ankr) {
                        ensure!(last != k || c.llama.as_ref() == Some(k), "the Ankr key goes to {}", s.url);
                    }
                    if let (Some(k), Company::Ankr) = (&c.ankr, company) {
                        ensure_eq!(last, k.as_str(), "key in {}", s.url);
                    }
                    if let (Some(k), Company::Llama) = (&c.llama, company) {
                        ensure_eq!(last, k.as_str(), "key in {}", s.url);
                    }
                }
                hosts.push(s.url.split('/').nth(2).unwrap_or("").to_string());
            }
            if c.which == 0 {
                let n = hosts.len();
                hosts.sort();
                hosts.dedup();
                ensure_eq!(hosts.len(), n, "providers of {net:?} that are not distinct: {services:?}");
                ensure!(n >= 2, "a single provider decides for {net:?}: {services:?}");
            }
            Ok(Info::nontrivial(true).label(&format!("{net:?}")))
        },
    );
}
