fn kind(k: u32) -> E<DomainType> {
    Ok(match k {
        0 => DomainType::BeaconProposer,
        1 => DomainType::BeaconAttester,
        2 => DomainType::Randao,
        3 => DomainType::Deposit,
        4 => DomainType::VoluntaryExit,
        5 => DomainType::SelectionProof,
        6 => DomainType::AggregateAndProof,
        7 => DomainType::SyncCommittee,
        8 => DomainType::SyncCommitteeSelectionProof,
        9 => DomainType::ContributionAndProof,
        10 => DomainType::BlsToExecutionChange,
        11 => DomainType::Consolidation,
        0x0100_0000 => DomainType::ApplicationMask,
        _ => return Err("no such domain".into()),
    })
}
fn us(v: impl IntoIterator<Item = usize>) -> A {
    A::List(v.into_iter().map(|x| x as u64).collect())
}
macro_rules! common_query {
    ($x:ident, $m:ident, $c:ident, $q:ident) => {{
        use $m as mm;
        let x = $x;
        let c = $c;
        match $q {
            Q::Committee { slot, index } => s(mm::get_beacon_committee(x, *slot, *index, c)).map(us),
            Q::CommitteeCount(e) => Ok(A::U(mm::get_committee_count_per_slot(x, *e, c) as u64)),
            Q::Proposer => s(mm::get_beacon_proposer_index(x, c)).map(|i| A::U(i as u64)),
            Q::Shuffled { index, count, seed } => {
                s(mm::compute_shuffled_index(*index, *count, &Bytes32::try_from(&seed[..]).unwrap(), c)).map(|i| A::U(i as u64))
            }
            Q::ShuffledAll { indices, seed } => Ok(us(mm::compute_shuffled_indices(indices, &Bytes32::try_from(&seed[..]).unwrap(), c).into_iter())),
            Q::ActiveIndices(e) => Ok(us(mm::get_active_validator_indices(x, *e))),
            Q::BlockRootAt(slot) => s(mm::get_block_root_at_slot(x, *slot)).map(|r| A::Bytes(r.as_ref().to_vec())),
            Q::BlockRoot(e) => s(mm::get_block_root(x, *e, c)).map(|r| A::Bytes(r.as_ref().to_vec())),
            Q::RandaoMix(e) => Ok(A::Bytes(mm::get_randao_mix(x, *e).as_ref().to_vec())),
            Q::Seed { epoch, kind: k } => kind(*k).map(|k| A::Bytes(mm::get_seed(x, *epoch, k, c).as_ref().to_vec())),
            Q::Domain { kind: k, epoch } => kind(*k).and_then(|k| s(mm::get_domain(x, k, *epoch, c))).map(|d| A::Bytes(d.to_vec())),
            Q::TotalBalance(v) => s(mm::get_total_balance(x, &v.iter().copied().collect(), c)).map(A::U),
            Q::TotalActive => s(mm::get_total_active_balance(x, c)).map(A::U),
            Q::Churn => Ok(A::U(mm::get_validator_churn_limit(x, c) as u64)),
            Q::Slash { index, reporter } => s(mm::slash_validator(x, *index, *reporter, c)).map(|_| A::Unit),
            Q::Exit(i) => s(mm::initiate_validator_exit(x, *i, c)).map(|_| A::Unit),
            _ => Err("no such query".into()),
        }
    }};
}
