pub mod snapshot_utils {
    pub const SNAPSHOT_STATUS_CACHE_FILENAME: &str = "status_cache";
}
pub mod stakes {
    use serde::{Deserialize, Serialize};
    use solana_sdk::{account::Account, clock::Epoch, pubkey::Pubkey, stake_history::StakeHistory};
    use std::collections::HashMap;
    #[derive(Serialize, Deserialize, Clone, Debug, Default)]
    pub struct Stakes<T: Clone> {
        pub vote_accounts: HashMap<Pubkey, (u64, Account)>,
        pub stake_delegations: HashMap<Pubkey, T>,
        pub unused: u64,
        pub epoch: Epoch,
        pub stake_history: StakeHistory,
    }
}
pub mod epoch_stakes {
    use serde::{Deserialize, Serialize};
    use solana_sdk::{pubkey::Pubkey, stake::state::Delegation};
    use std::collections::HashMap;
    #[derive(Serialize, Deserialize, Clone, Debug, Default)]
    pub struct NodeVoteAccounts {
        pub vote_accounts: Vec<Pubkey>,
        pub total_stake: u64,
    }
    #[derive(Serialize, Deserialize, Clone, Debug, Default)]
    pub struct EpochStakes {
        pub stakes: crate::stakes::Stakes<Delegation>,
        pub total_stake: u64,
        pub node_id_to_vote_accounts: HashMap<Pubkey, NodeVoteAccounts>,
        pub epoch_authorized_voters: HashMap<Pubkey, Pubkey>,
    }
}
