// Planted bugs: edits against the original text, and a demonstration of the property each one breaks.
const SPI = 'staking-pool/src/internal.rs', SPL = 'staking-pool/src/lib.rs', LG = 'lockup/src/getters.rs', LO = 'lockup/src/owner.rs', LOC = 'lockup/src/owner_callbacks.rs', LF = 'lockup/src/foundation.rs', LFC = 'lockup/src/foundation_callbacks.rs';
const M1 = 'multisig/src/lib.rs', M2 = 'multisig2/src/lib.rs', V = 'voting/src/lib.rs', WL = 'whitelist/src/lib.rs', SF = 'staking-pool-factory/src/lib.rs', LFA = 'lockup-factory/src/lib.rs', MF = 'multisig-factory/src/lib.rs', NW = 'w-near/src/w_near.rs', SM = 'state-manipulation/src/lib.rs';
export const SEEDS = [
{ id: 'pool-unstake-rounds-against-others', prop: 'S02', contracts: ['staking-pool'],
  edits: { [SPI]: [['let unstake_amount = self.staked_amount_from_num_shares_rounded_down(num_shares);', 'let unstake_amount = self.staked_amount_from_num_shares_rounded_up(num_shares);']] },
  needs: 'a share price that is not a whole number (after rewards), then many small unstakes while somebody else holds most of the shares',
  breaks: 'unstaking takes the rounded-up amount out of the staked total, so the share price falls and other delegators lose balance',
  demo: `
const w = new World().user('owner.near', 'alice.near', 'bob.near'); w.pool();
w.ok('alice.near', 'pool.near', 'deposit_and_stake', {}, { deposit: 10n ** 32n });
w.epochs(3, () => 12345678901234567891n);
w.ok('bob.near', 'pool.near', 'deposit_and_stake', {}, { deposit: 100n * N });
for (let i = 0; i < 80; i++) {
  const before = w.staked('pool.near', 'alice.near');
  w.ok('bob.near', 'pool.near', 'unstake', { amount: String(1 + i) });
  const after = w.staked('pool.near', 'alice.near');
  need(after >= before, "bob's unstake reduced alice's staked balance from " + before + ' to ' + after);
}` },
{ id: 'pool-second-unstake-keeps-old-unlock', prop: 'S03', contracts: ['staking-pool'],
  edits: { [SPI]: [['account.unstaked_available_epoch_height = env::epoch_height() + NUM_EPOCHS_TO_UNLOCK;', '// A pending unstake keeps the epoch it is already waiting for.\n        if account.unstaked_available_epoch_height <= env::epoch_height() {\n            account.unstaked_available_epoch_height = env::epoch_height() + NUM_EPOCHS_TO_UNLOCK;\n        }']] },
  needs: 'a second unstake while the first one is still waiting, and a withdrawal between the two unlock epochs',
  breaks: 'a second unstake does not restart the four-epoch wait, so freshly unstaked tokens can be withdrawn too early',
  demo: `
const w = new World().user('owner.near', 'alice.near'); w.pool();
w.ok('alice.near', 'pool.near', 'deposit_and_stake', {}, { deposit: 100n * N });
w.ok('alice.near', 'pool.near', 'unstake', { amount: String(10n * N) });
w.epochs(3);
w.ok('alice.near', 'pool.near', 'unstake', { amount: String(10n * N) });
for (let e = 0; e < 4; e++) {
  need(w.get('pool.near', 'is_account_unstaked_balance_available', { account_id: 'alice.near' }) === false, 'available ' + e + ' epochs after the latest unstake');
  w.no('alice.near', 'pool.near', 'withdraw_all', {});
  w.epochs(1);
}
w.ok('alice.near', 'pool.near', 'withdraw_all', {});` },
{ id: 'pool-fee-change-is-retroactive', prop: 'S04', contracts: ['staking-pool'],
  edits: { [SPL]: [['let need_to_restake = self.internal_ping();\n        self.reward_fee_fraction = reward_fee_fraction;', 'self.reward_fee_fraction = reward_fee_fraction;\n        let need_to_restake = self.internal_ping();']] },
  needs: 'the owner changes the fee in an epoch whose rewards have not been distributed yet',
  breaks: 'rewards earned under the old fee are charged the new fee',
  demo: `
const w = new World().user('owner.near', 'alice.near'); w.pool('pool.near', [0, 1]);
w.ok('alice.near', 'pool.near', 'deposit_and_stake', {}, { deposit: 1000n * N });
w.epochs(1); w.ok('alice.near', 'pool.near', 'ping', {});
w.epochs(1, () => 100n * N);
const total = BigInt(w.get('pool.near', 'get_total_staked_balance'));
w.ok('owner.near', 'pool.near', 'update_reward_fee_fraction', { reward_fee_fraction: { numerator: 1, denominator: 2 } });
need(BigInt(w.get('pool.near', 'get_total_staked_balance')) > total, 'the reward was not distributed');
eq(w.staked('pool.near', 'owner.near'), 0n, 'owner fee on rewards earned while the fee was zero');` },
{ id: 'pool-withdraw-all-forgets-restake', prop: 'S05', contracts: ['staking-pool'],
  edits: { [SPL]: [['self.internal_withdraw(account.unstaked);\n\n        if need_to_restake {', 'self.internal_withdraw(account.unstaked);\n\n        // Withdrawing everything leaves the stake alone unless this account still has shares.\n        if need_to_restake && account.stake_shares > 0 {']] },
  needs: 'the first interaction of an epoch with rewards is a withdraw_all by an account without shares',
  breaks: 'rewards are distributed but not restaked: the protocol stake stays below the total staked balance',
  demo: `
const w = new World().user('owner.near', 'alice.near', 'bob.near'); w.pool();
w.ok('bob.near', 'pool.near', 'deposit_and_stake', {}, { deposit: 500n * N });
w.ok('alice.near', 'pool.near', 'deposit', {}, { deposit: 5n * N });
w.epochs(1); w.ok('bob.near', 'pool.near', 'ping', {});
let stakes = [];
w.c.listeners.push((ev) => { for (const m of ev.made) for (const a of m.actions) if (a.type === 'Stake') stakes.push(a.stake); });
w.epochs(1, () => 10n * N);
w.ok('alice.near', 'pool.near', 'withdraw_all', {});
eq(stakes, [BigInt(w.get('pool.near', 'get_total_staked_balance'))], 'stake actions issued when rewards were distributed');` },
{ id: 'pool-owner-by-signer', prop: 'X01', contracts: ['staking-pool'],
  edits: { [SPI]: [['env::predecessor_account_id(),\n            self.owner_id,', 'env::signer_account_id(),\n            self.owner_id,']] },
  needs: 'the owner signs a transaction to some other contract, which calls the pool',
  breaks: 'any contract the owner calls can act as the pool owner',
  demo: `
const w = new World().user('owner.near'); w.pool();
w.c.createAccount('evil.near', 10n * N, { code: jsContract((api) => { if (api.method === 'game') return api.promise('pool.near', [{ type: 'FunctionCall', method: 'pause_staking', args: {} }]); throw new Error('x'); }) });
w.try('owner.near', 'evil.near', 'game', {});
eq(w.get('pool.near', 'is_staking_paused'), false, 'paused by a contract the owner merely called');
w.no('evil.near', 'pool.near', 'pause_staking', {});
w.ok('owner.near', 'pool.near', 'pause_staking', {});` },
{ id: 'lockup-transfer-during-withdrawal', prop: 'L01', contracts: ['lockup', 'whitelist'],
  edits: { [LO]: [['self.assert_transfers_enabled();\n        self.assert_no_staking_or_idle();\n        self.assert_no_termination();\n        assert!(\n            self.get_liquid', 'self.assert_transfers_enabled();\n        self.assert_no_termination();\n        assert!(\n            self.get_liquid']] },
  needs: 'a transfer between the arrival of the tokens withdrawn from the pool and the callback that lowers the known deposit',
  breaks: 'the withdrawn tokens are counted twice, so the owner can take locked tokens',
  demo: `
for (let stop = 1; stop <= 12; stop++) {
  const w = new World().user('owner.near', 'foundation.near', 'thief.near'), st = {};
  w.lockup({ release_duration: String(4000n * DAY) }); // a quarter released
  w.mockPool('pool.near', st); w.whitelist('pool.near');
  w.ok('owner.near', 'lockup.near', 'select_staking_pool', { staking_pool_account_id: 'pool.near' });
  w.ok('owner.near', 'lockup.near', 'deposit_to_staking_pool', { amount: String(900n * N) });
  w.c.call('owner.near', 'lockup.near', 'withdraw_from_staking_pool', { amount: String(900n * N) });
  for (let i = 0; i < stop && w.c.pending; i++) w.c.step();
  w.c.call('owner.near', 'lockup.near', 'transfer', { amount: String(900n * N), receiver_id: 'thief.near' });
  w.c.drain();
  const locked = BigInt(w.get('lockup.near', 'get_locked_amount'));
  need(w.bal('lockup.near') + (st.un ?? 0n) + (st.st ?? 0n) >= locked, 'locked ' + locked + ' but only ' + w.bal('lockup.near') + ' left');
}` },
{ id: 'lockup-timestamp-overrides-duration', prop: 'L02', contracts: ['lockup', 'whitelist'],
  edits: { [LG]: [['let lockup_timestamp = std::cmp::max(\n                transfers_timestamp\n                    .0\n                    .saturating_add(self.lockup_information.lockup_duration),\n                self.lockup_information.lockup_timestamp.unwrap_or(0),\n            );', 'let lockup_timestamp = match self.lockup_information.lockup_timestamp {\n                Some(lockup_timestamp) => std::cmp::max(transfers_timestamp.0, lockup_timestamp),\n                None => transfers_timestamp\n                    .0\n                    .saturating_add(self.lockup_information.lockup_duration),\n            };']] },
  needs: 'both a lockup timestamp and a lockup duration that ends later',
  breaks: 'with an explicit lockup timestamp the lockup duration is ignored and tokens unlock too early',
  demo: `
const w = new World().user('owner.near', 'foundation.near');
w.lockup({ lockup_duration: String(3000n * DAY), lockup_timestamp: String(T0 - 10n * DAY) });
eq(w.get('lockup.near', 'get_locked_amount'), String(1000n * N), 'locked amount 2000 days before the lockup duration ends');
w.no('owner.near', 'lockup.near', 'transfer', { amount: '1', receiver_id: 'owner.near' });` },
{ id: 'lockup-release-end-off-by-rounding', prop: 'L02', contracts: ['lockup', 'whitelist'],
  edits: { [LG]: [['let time_left = U256::from(end_timestamp - block_timestamp);\n                            let unreleased_amount = U256::from(lockup_amount) * time_left\n                                / U256::from(release_duration);', 'let unreleased_percent = (end_timestamp - block_timestamp) as u128 * 1_000_000 / release_duration as u128;\n                            let unreleased_amount =\n                                U256::from(lockup_amount) * U256::from(unreleased_percent) / U256::from(1_000_000);']] },
  needs: 'a time inside the release period that is not a round millionth of it',
  breaks: 'the release is computed in millionths, so up to a millionth of the locked tokens is released before its time',
  demo: `
const w = new World().user('owner.near', 'foundation.near');
w.lockup({ release_duration: String(4000n * DAY) });
const end = T0 + 3000n * DAY, A = 1000n * N;
for (let i = 0; i < 20; i++) {
  w.c.timestamp = T0 + BigInt(i) * 37n * DAY + 123456789n * BigInt(i);
  eq(BigInt(w.get('lockup.near', 'get_locked_amount')), A * (end - w.c.timestamp) / (4000n * DAY), 'locked amount');
}` },
{ id: 'lockup-second-payment-forgets-first', prop: 'L03', contracts: ['lockup', 'whitelist'],
  edits: { [LFC]: [['self.lockup_information.termination_withdrawn_tokens += amount.0;', 'self.lockup_information.termination_withdrawn_tokens = amount.0;']] },
  needs: 'a terminated unvested amount that is paid out in two parts',
  breaks: 'only the last payment to the foundation is remembered, so tokens already paid to it stay locked for the owner',
  demo: `
const w = new World().user('owner.near', 'foundation.near');
w.lockup({ lockup_duration: String(5000n * DAY), foundation_account_id: 'foundation.near',
  vesting_schedule: { VestingSchedule: { start_timestamp: String(T0 - DAY), cliff_timestamp: String(T0 + 100n * DAY), end_timestamp: String(T0 + 1000n * DAY) } } });
w.ok('foundation.near', 'lockup.near', 'terminate_vesting', {});
const b = w.bal('foundation.near');
w.ok('foundation.near', 'lockup.near', 'termination_withdraw', { receiver_id: 'foundation.near' });
w.c.tx('owner.near', 'lockup.near', [{ type: 'Transfer', amount: 50n * N }]); w.c.drain();
w.ok('foundation.near', 'lockup.near', 'termination_withdraw', { receiver_id: 'foundation.near' });
eq(w.bal('foundation.near') - b, 1000n * N, 'paid to the foundation');
eq(w.get('lockup.near', 'get_locked_amount'), '0', 'locked after everything was paid to the foundation');` },
{ id: 'lockup-termination-during-first-deposit', prop: 'L03', contracts: ['lockup', 'whitelist'],
  edits: { [LF]: [['let status = if deficit > 0 && self.staking_information.is_some() {', 'let status = if deficit > 0 && self.get_known_deposited_balance().0 > 0 {']] },
  needs: 'the foundation terminates the vesting while the first deposit to the pool is still in flight',
  breaks: 'the termination skips the pool, and the foundation can never get the unvested tokens that are deposited there',
  demo: `
for (let stop = 1; stop <= 4; stop++) {
  const w = new World().user('owner.near', 'foundation.near'), st = {};
  w.lockup({ lockup_duration: String(5000n * DAY), foundation_account_id: 'foundation.near',
    vesting_schedule: { VestingSchedule: { start_timestamp: String(T0 - DAY), cliff_timestamp: String(T0 + 100n * DAY), end_timestamp: String(T0 + 1000n * DAY) } } });
  w.mockPool('pool.near', st); w.whitelist('pool.near');
  w.ok('owner.near', 'lockup.near', 'select_staking_pool', { staking_pool_account_id: 'pool.near' });
  w.c.call('owner.near', 'lockup.near', 'deposit_to_staking_pool', { amount: String(900n * N) });
  for (let i = 0; i < stop && w.c.pending; i++) w.c.step();
  w.ok('foundation.near', 'lockup.near', 'terminate_vesting', {});
  const b = w.bal('foundation.near');
  for (let i = 0; i < 6; i++) { w.try('foundation.near', 'lockup.near', 'termination_prepare_to_withdraw', {}); w.try('foundation.near', 'lockup.near', 'termination_withdraw', { receiver_id: 'foundation.near' }); }
  eq(w.bal('foundation.near') - b, 9965n * N / 10n, 'paid to the foundation');
}` },
{ id: 'lockup-failed-termination-unstake-stuck', prop: 'L04', contracts: ['lockup', 'whitelist'],
  edits: { [LFC]: [['let unstake_succeeded = is_promise_success();\n        self.set_staking_pool_status(TransactionStatus::Idle);\n\n        if unstake_succeeded {', 'let unstake_succeeded = is_promise_success();\n\n        if unstake_succeeded {\n            self.set_staking_pool_status(TransactionStatus::Idle);']] },
  needs: 'the pool fails the unstake of a terminated vesting',
  breaks: 'the lockup stays busy forever, and the foundation can never finish the termination',
  demo: `
const w = new World().user('owner.near', 'foundation.near'), st = {};
w.lockup({ lockup_duration: String(5000n * DAY), foundation_account_id: 'foundation.near',
  vesting_schedule: { VestingSchedule: { start_timestamp: String(T0 - DAY), cliff_timestamp: String(T0 + 100n * DAY), end_timestamp: String(T0 + 1000n * DAY) } } });
w.mockPool('pool.near', st); w.whitelist('pool.near');
w.ok('owner.near', 'lockup.near', 'select_staking_pool', { staking_pool_account_id: 'pool.near' });
w.ok('owner.near', 'lockup.near', 'deposit_and_stake', { amount: String(900n * N) });
w.ok('foundation.near', 'lockup.near', 'terminate_vesting', {});
st.down = (m) => m === 'unstake';
w.try('foundation.near', 'lockup.near', 'termination_prepare_to_withdraw', {});
st.down = null;
for (let i = 0; i < 2; i++) w.ok('foundation.near', 'lockup.near', 'termination_prepare_to_withdraw', {});
w.ok('foundation.near', 'lockup.near', 'termination_withdraw', { receiver_id: 'foundation.near' });` },
{ id: 'lockup-nothing-to-withdraw-stuck', prop: 'L04', contracts: ['lockup', 'whitelist'],
  edits: { [LOC]: [['env::log(b"No unstaked balance on the staking pool to withdraw");\n            self.set_staking_pool_status(TransactionStatus::Idle);\n', 'env::log(b"No unstaked balance on the staking pool to withdraw");\n']] },
  needs: 'withdraw_all_from_staking_pool when nothing is unstaked there',
  breaks: 'the lockup stays busy forever although its messages have been processed',
  demo: `
const w = new World().user('owner.near', 'foundation.near'), st = {};
w.lockup(); w.mockPool('pool.near', st); w.whitelist('pool.near');
w.ok('owner.near', 'lockup.near', 'select_staking_pool', { staking_pool_account_id: 'pool.near' });
w.ok('owner.near', 'lockup.near', 'deposit_and_stake', { amount: String(100n * N) });
w.ok('owner.near', 'lockup.near', 'withdraw_all_from_staking_pool', {});
w.ok('owner.near', 'lockup.near', 'unstake_all', {});
w.ok('owner.near', 'lockup.near', 'withdraw_all_from_staking_pool', {});
eq(w.get('lockup.near', 'get_known_deposited_balance'), '0', 'known deposit');` },
{ id: 'lockup-key-after-partial-release', prop: 'L05', contracts: ['lockup', 'whitelist'],
  edits: { [LO]: [['assert_eq!(self.get_locked_amount().0, 0, "Tokens are still locked/unvested");', '// Tokens that went to the foundation are no longer locked here.\n        assert!(\n            self.get_locked_amount().0 <= self.lockup_information.termination_withdrawn_tokens,\n            "Tokens are still locked/unvested"\n        );']] },
  needs: 'a completed vesting termination, and a release period that is still running',
  breaks: 'the owner gets a full access key while tokens are still locked',
  demo: `
const w = new World().user('owner.near', 'foundation.near');
w.lockup({ release_duration: String(4000n * DAY), foundation_account_id: 'foundation.near',
  vesting_schedule: { VestingSchedule: { start_timestamp: String(T0 - 1000n * DAY), cliff_timestamp: String(T0 - 900n * DAY), end_timestamp: String(T0 + 700n * DAY) } } });
w.ok('foundation.near', 'lockup.near', 'terminate_vesting', {});
w.ok('foundation.near', 'lockup.near', 'termination_withdraw', { receiver_id: 'foundation.near' });
eq(w.get('lockup.near', 'get_termination_status'), null, 'termination over');
need(BigInt(w.get('lockup.near', 'get_locked_amount')) > 0n, 'nothing locked any more');
w.no('owner.near', 'lockup.near', 'add_full_access_key', { new_public_key: pk58(pkOf('k')) });
eq([...w.c.acct('lockup.near').keys.keys()], [], 'keys of the lockup');` },
{ id: 'lockup-second-selection-wins', prop: 'L06', contracts: ['lockup', 'whitelist'],
  edits: { [LOC]: [['self.assert_staking_pool_is_not_selected();\n        self.assert_no_termination();\n        self.staking_information', 'self.assert_no_termination();\n        self.staking_information']] },
  needs: 'two select_staking_pool calls whose whitelist checks are in flight together',
  breaks: 'the second selection replaces the first one and forgets what is deposited there',
  demo: `
for (let i = 0; i < 5; i++) {
  const w = new World().user('owner.near', 'foundation.near');
  w.lockup(); for (const p of ['a.near', 'b.near']) { w.mockPool(p, {}); w.whitelist(p); }
  const h = ['a.near', 'b.near'].map((p) => w.c.call('owner.near', 'lockup.near', 'select_staking_pool', { staking_pool_account_id: p }));
  for (let k = 0; k < i; k++) if (w.c.pending) w.c.step();
  w.c.drain();
  eq(h.filter((x) => x.ok).length, 1, 'selections that succeeded');
}` },
{ id: 'lockup-callback-for-anyone', prop: 'X01', contracts: ['lockup', 'whitelist'],
  edits: { [LFC]: [['        assert_self();\n\n        let withdraw_succeeded = is_promise_success();\n        if withdraw_succeeded {', '        let withdraw_succeeded = is_promise_success();\n        if withdraw_succeeded {']] },
  needs: 'a stranger contract chains a promise to on_withdraw_unvested_amount while a termination is in progress',
  breaks: 'anybody can pretend the unvested tokens were paid out',
  demo: `
const w = new World().user('owner.near', 'foundation.near');
w.lockup({ lockup_duration: String(5000n * DAY), foundation_account_id: 'foundation.near',
  vesting_schedule: { VestingSchedule: { start_timestamp: String(T0 - DAY), cliff_timestamp: String(T0 + 100n * DAY), end_timestamp: String(T0 + 1000n * DAY) } } });
w.ok('foundation.near', 'lockup.near', 'terminate_vesting', {});
w.c.createAccount('evil.near', 10n * N, { code: jsContract((api) => {
  if (api.method === 'noop') return null;
  const a = api.promise('evil.near', [{ type: 'FunctionCall', method: 'noop', args: {} }]);
  return api.promise('lockup.near', [{ type: 'FunctionCall', method: 'on_withdraw_unvested_amount', args: { amount: String(1000n * N), receiver_id: 'evil.near' } }], [a]);
}) });
w.try('owner.near', 'evil.near', 'go', {});
need(w.get('lockup.near', 'get_termination_status') !== null, 'a stranger completed the termination');` },
{ id: 'multisig2-signer-key-counts-anywhere', prop: 'M01', contracts: ['multisig2'],
  edits: { [M2]: [['if env::current_account_id() == env::predecessor_account_id() {', 'if env::current_account_id() == env::signer_account_id() {']] },
  needs: 'the wallet executes a call to another contract, which calls the wallet back while the wallet is the signer',
  breaks: 'a contract the wallet calls can add and confirm requests as the member key that signed',
  demo: `
const w = new Wallet().v2([{ public_key: pk58(pkOf('k1')) }, { public_key: pk58(pkOf('k2')) }], 1);
w.c.acct(W).keys.set(pkOf('k1'), { full: true });
w.c.createAccount('thief.near', 10n * N, {});
w.c.createAccount('evil.near', 10n * N, { code: jsContract((api) => api.promise(W, [{ type: 'FunctionCall', method: 'add_request_and_confirm', args: { request: { receiver_id: 'thief.near', actions: [{ type: 'Transfer', amount: String(5n * N) }] } } }])) });
const id = w.add(W, [{ type: 'FunctionCall', method_name: 'ping', args: '', deposit: '0', gas: '200000000000000' }], 'evil.near', { pk: pkOf('k1') });
w.c.run(W, W, 'confirm', { request_id: id }, { pk: pkOf('k1') });
eq(w.bal('thief.near'), 10n * N, 'balance of somebody no member paid');` },
{ id: 'multisig-method-names-glued', prop: 'M01', contracts: ['multisig'],
  edits: { [M1]: [['permission.method_names.join(",").into_bytes(),', 'permission.method_names.concat().into_bytes(),']] },
  needs: 'a request that adds a key allowed to call more than one method',
  breaks: 'the key is added with different permissions than the members confirmed',
  demo: `
const w = new Wallet().v1(['k1', 'k2'], 2);
const id = w.add(W, [{ type: 'AddKey', public_key: pk58(pkOf('n')), permission: { allowance: null, receiver_id: W, method_names: ['confirm', 'add_request'] } }], W, { pk: pkOf('k1') });
w.confirm(W, id, { pk: pkOf('k1') }); w.confirm(W, id, { pk: pkOf('k2') });
const k = w.c.acct(W).keys.get(pkOf('n')); need(k, 'key not added');
eq([...k.methods].sort(), ['add_request', 'confirm'], 'methods of the added key');` },
{ id: 'multisig2-member-removal-keeps-confirmed-requests', prop: 'M03', contracts: ['multisig2'],
  edits: { [M2]: [['.filter_map(|(k, r)| if r.member == member { Some(k) } else { None })', '.filter_map(|(k, r)| {\n                // Requests other members have confirmed stay.\n                let confirmations = self.confirmations.get(&k).unwrap_or_default();\n                if r.member == member && confirmations.iter().all(|c| c == &member.to_string()) {\n                    Some(k)\n                } else {\n                    None\n                }\n            })']] },
  needs: 'a request of the removed member that another member has confirmed but that is still below the threshold',
  breaks: 'requests of a removed member survive its removal and can still be executed',
  demo: `
const w = new Wallet().v2(['a.near', 'b.near', 'c.near', 'd.near'].map((account_id) => ({ account_id })), 3);
w.c.createAccount('x.near', N, {});
const bad = w.add('d.near', [{ type: 'Transfer', amount: String(5n * N) }], 'x.near');
w.confirm('a.near', bad);
const del = w.add('a.near', [{ type: 'DeleteMember', member: { account_id: 'd.near' } }]);
for (const m of ['a.near', 'b.near', 'c.near']) w.confirm(m, del);
eq(w.get(W, 'list_request_ids'), [], 'requests left after their author was removed');` },
{ id: 'multisig-confirmer-gets-the-slot-back', prop: 'M02', contracts: ['multisig'],
  edits: { [M1]: [['let original_signer_pk = request_with_signer.signer_pk;', 'let original_signer_pk = if env::signer_account_pk() == request_with_signer.signer_pk\n            || self.num_requests_pk.get(&env::signer_account_pk()).is_none()\n        {\n            request_with_signer.signer_pk\n        } else {\n            env::signer_account_pk()\n        };']] },
  needs: 'a request is finished or deleted by a key other than its author, and that key has made requests of its own',
  breaks: 'the active-request count of the key that confirms is lowered instead of the author\'s',
  demo: `
const w = new Wallet().v1(['k1', 'k2'], 1);
const pay = [{ type: 'Transfer', amount: '1' }];
w.user('bob.near');
const a = w.add(W, pay, 'bob.near', { pk: pkOf('k1') });
w.add(W, pay, 'bob.near', { pk: pkOf('k2') });
w.confirm(W, a, { pk: pkOf('k2') });
eq(w.get(W, 'get_num_requests_pk', { public_key: pk58(pkOf('k1')) }), 0, 'active requests of k1 after its only request ran');
eq(w.get(W, 'get_num_requests_pk', { public_key: pk58(pkOf('k2')) }), 1, 'active requests of k2');` },
{ id: 'multisig-config-through-foreign-request', prop: 'M04', contracts: ['multisig'],
  edits: { [M1]: [['self.assert_self_request(receiver_id);\n        assert_eq!(num_actions, 1, "This method should be a separate request");', 'if num_actions > 1 {\n            self.assert_self_request(receiver_id);\n        }\n        assert_eq!(num_actions, 1, "This method should be a separate request");']] },
  needs: 'a SetNumConfirmations request whose receiver is another account',
  breaks: 'the threshold of the wallet changes through a request addressed to somebody else',
  demo: `
const w = new Wallet().v1(['k1', 'k2', 'k3'], 2);
const id = w.add(W, [{ type: 'SetNumConfirmations', num_confirmations: 1 }], 'friend.near', { pk: pkOf('k1') });
w.c.run(W, W, 'confirm', { request_id: id }, { pk: pkOf('k1') }); w.c.run(W, W, 'confirm', { request_id: id }, { pk: pkOf('k2') });
eq(w.get(W, 'get_num_confirmations'), 2, 'threshold');` },
{ id: 'voting-threshold-rounds-down', prop: 'V01', contracts: ['voting'],
  edits: { [V]: [['if self.total_voted_stake > 2 * total_stake / 3 {', 'if self.total_voted_stake > total_stake / 3 * 2 {']] },
  needs: 'a total stake that three does not divide, and votes for exactly two thirds rounded down',
  breaks: 'the poll passes with no more than two thirds of the stake',
  demo: `
const w = new World().user('a.near', 'b.near', 'c.near'); const st = { 'a.near': 3n, 'b.near': 1n, 'c.near': 1n };
w.c.stakeOverride = { validatorStake: (i) => st[i] ?? 0n, validatorTotalStake: () => 5n };
w.c.createAccount('vote.near', 50n * N, { code: wasm('voting_contract') }); w.ok('a.near', 'vote.near', 'new', {});
w.ok('a.near', 'vote.near', 'vote', { is_vote: true });
eq(w.get('vote.near', 'get_result'), null, 'result with 3 of 5');
w.ok('b.near', 'vote.near', 'vote', { is_vote: true });
need(w.get('vote.near', 'get_result') !== null, 'no result with 4 of 5');` },
{ id: 'voting-small-voters-dropped', prop: 'V02', contracts: ['voting'],
  edits: { [V]: [['if account_current_stake > 0 {\n                    self.votes.insert(account_id, account_current_stake);', 'if account_current_stake > self.total_voted_stake / 1_000_000 {\n                    self.votes.insert(account_id, account_current_stake);']] },
  needs: 'a voter with less than a millionth of the voted stake, and an epoch change',
  breaks: 'small voters are dropped from the votes but stay in the tally',
  demo: `
const w = new World().user('a.near', 'b.near'); const st = { 'a.near': 10n ** 30n, 'b.near': 10n ** 20n, other: 10n ** 31n };
w.c.stakeOverride = { validatorStake: (i) => st[i] ?? 0n, validatorTotalStake: () => Object.values(st).reduce((x, y) => x + y, 0n) };
w.c.createAccount('vote.near', 50n * N, { code: wasm('voting_contract') }); w.ok('a.near', 'vote.near', 'new', {});
for (let i = 0; i < 6; i++) {
  for (const v of ['a.near', 'b.near']) w.ok(v, 'vote.near', 'vote', { is_vote: true });
  w.c.epoch += 1n; w.ok('a.near', 'vote.near', 'ping', {});
  eq(Object.values(w.get('vote.near', 'get_votes')).reduce((x, y) => x + BigInt(y), 0n), BigInt(w.get('vote.near', 'get_total_voted_stake')[0]), 'sum of the votes');
  eq(Object.keys(w.get('vote.near', 'get_votes')).sort(), ['a.near', 'b.near'], 'voters');
  for (const v of ['a.near', 'b.near']) w.ok(v, 'vote.near', 'vote', { is_vote: false });
  eq(w.get('vote.near', 'get_total_voted_stake')[0], '0', 'voted stake after everybody withdrew');
}` },
{ id: 'whitelist-factory-removal-drops-same-named-pool', prop: 'W01', contracts: ['whitelist'],
  edits: { [WL]: [['self.factory_whitelist.remove(&factory_account_id)', 'self.whitelist.remove(&factory_account_id);\n        self.factory_whitelist.remove(&factory_account_id)']] },
  needs: 'an account that is both a whitelisted pool and a whitelisted factory',
  breaks: 'removing a factory also removes a pool of the same name',
  demo: `
const w = new World().user('foundation.near');
w.c.createAccount('whitelist.near', 10n * N, { code: wasm('whitelist') }); w.ok('foundation.near', 'whitelist.near', 'new', { foundation_account_id: 'foundation.near' });
w.ok('foundation.near', 'whitelist.near', 'add_staking_pool', { staking_pool_account_id: 'x.near' });
w.ok('foundation.near', 'whitelist.near', 'add_factory', { factory_account_id: 'x.near' });
w.ok('foundation.near', 'whitelist.near', 'remove_factory', { factory_account_id: 'x.near' });
eq(w.get('whitelist.near', 'is_whitelisted', { staking_pool_account_id: 'x.near' }), true, 'pool after its factory role was removed');` },
{ id: 'pool-factory-refunds-signer', prop: 'F01', contracts: ['staking-pool-factory', 'whitelist'],
  edits: { [SF]: [['Promise::new(predecessor_account_id).transfer(attached_deposit.0);', 'let _ = predecessor_account_id;\n            Promise::new(env::signer_account_id()).transfer(attached_deposit.0);']] },
  needs: 'a contract (not the signer) calls the factory and the creation fails',
  breaks: 'the deposit of a failed creation goes to whoever signed the transaction instead of the caller who paid it',
  demo: `
const w = new World().user('user.near', 'foundation.near');
w.c.createAccount('factory.near', 100n * N, { code: wasm('staking_pool_factory') }); w.ok('user.near', 'factory.near', 'new', { staking_pool_whitelist_account_id: 'whitelist.near' });
w.c.createAccount('dao.near', 1000n * N, { code: jsContract((api) => api.promise('factory.near', [{ type: 'FunctionCall', method: 'create_staking_pool', deposit: 50n * N, gas: 250n * 10n ** 12n, args: { staking_pool_id: 'p', owner_id: 'dao.near', stake_public_key: pk58(pkOf('s')), reward_fee_fraction: { numerator: 1, denominator: 10 } } }])) });
w.c.createAccount('p.factory.near', N, {});
w.try('user.near', 'dao.near', 'go', {});
eq(w.bal('dao.near'), 1000n * N, 'balance of the caller after a failed creation');` },
{ id: 'lockup-factory-vesting-ignores-whitelist', prop: 'F02', contracts: ['lockup-factory'],
  edits: { [LFA]: [['let staking_pool_whitelist_account_id = if let Some(account_id) = whitelist_account_id {\n            account_id.into()', 'let staking_pool_whitelist_account_id = if let (Some(account_id), None) =\n            (whitelist_account_id, foundation_account.as_ref())\n        {\n            account_id.into()']] },
  needs: 'a custom whitelist together with a vesting schedule',
  breaks: 'a lockup with vesting is created with the default whitelist instead of the requested one',
  demo: `
const w = new World().user('user.near', 'owner.near'); let asked = [];
for (const i of ['whitelist.near', 'custom.near']) w.c.createAccount(i, N, { code: jsContract((api) => { asked.push(api.self); return false; }) });
w.c.createAccount('factory.near', 100n * N, { code: wasm('lockup_factory') }); w.ok('user.near', 'factory.near', 'new', { whitelist_account_id: 'whitelist.near', foundation_account_id: 'foundation.near' });
let id; w.c.listeners.push((ev) => { for (const m of ev.made) if (m.receiver.endsWith('.factory.near')) id = m.receiver; });
w.ok('user.near', 'factory.near', 'create', { owner_account_id: 'owner.near', lockup_duration: '0', vesting_schedule: { VestingSchedule: { start_timestamp: String(T0), cliff_timestamp: String(T0 + DAY), end_timestamp: String(T0 + 2n * DAY) } }, whitelist_account_id: 'custom.near' }, { deposit: 50n * N });
w.try('owner.near', id, 'select_staking_pool', { staking_pool_account_id: 'pool.near' });
eq(asked, ['custom.near'], 'whitelist the lockup asks');` },
{ id: 'multisig-factory-threshold-truncated', prop: 'F03', contracts: ['multisig-factory'],
  edits: { [MF]: [['json!({ "members": members, "num_confirmations": num_confirmations })', 'json!({ "members": members, "num_confirmations": num_confirmations as u32 })']] },
  needs: 'a threshold of 2^32 + 1',
  breaks: 'a threshold that does not fit is truncated and the wallet is created with a threshold of one',
  demo: `
const w = new World().user('user.near');
w.c.createAccount('factory.near', 100n * N, { code: wasm('multisig_factory') });
w.try('user.near', 'factory.near', 'create', { name: 'w', members: [{ account_id: 'a.near' }, { account_id: 'b.near' }], num_confirmations: 4294967297 }, { deposit: 10n * N });
need(!w.c.acct('w.factory.near'), 'a wallet was created for an impossible threshold');` },
{ id: 'wnear-withdraw-pays-signer', prop: 'N01', contracts: ['w-near'],
  edits: { [NW]: [['// Transferring NEAR and refunding 1 yoctoNEAR.\n        Promise::new(account_id).transfer(amount + 1)', '// Transferring NEAR and refunding 1 yoctoNEAR.\n        Promise::new(env::signer_account_id()).transfer(amount + 1)']] },
  needs: 'a contract withdraws in a transaction somebody else signed',
  breaks: 'the withdrawn NEAR goes to the signer instead of the account whose tokens were burnt',
  demo: `
const w = new World().user('user.near');
w.c.createAccount('wrap.near', 50n * N, { code: wasm('w_near') }); w.ok('user.near', 'wrap.near', 'new', {});
w.c.createAccount('dao.near', 1000n * N, { code: jsContract((api) => (api.method === 'in' ? api.promise('wrap.near', [{ type: 'FunctionCall', method: 'near_deposit', deposit: 100n * N, args: {} }]) : api.promise('wrap.near', [{ type: 'FunctionCall', method: 'near_withdraw', deposit: 1n, args: { amount: String(50n * N) } }]))) });
w.ok('user.near', 'dao.near', 'in', {}); const b = w.bal('dao.near');
w.ok('user.near', 'dao.near', 'out', {});
eq(w.bal('dao.near') - b, 50n * N, 'NEAR the withdrawing account received');` },
{ id: 'wnear-exact-registration-mints', prop: 'N01', contracts: ['w-near'],
  edits: { [NW]: [['amount -= self.ft.storage_balance_bounds().min.0;', 'if amount > self.ft.storage_balance_bounds().min.0 {\n                amount -= self.ft.storage_balance_bounds().min.0;\n            }']] },
  needs: 'a first deposit of exactly the registration cost',
  breaks: 'a deposit that only covers the registration also mints tokens: tokens without NEAR behind them',
  demo: `
const w = new World().user('user.near', 'alice.near');
w.c.createAccount('wrap.near', 50n * N, { code: wasm('w_near') }); w.ok('user.near', 'wrap.near', 'new', {});
const min = BigInt(w.get('wrap.near', 'storage_balance_bounds').min);
w.ok('alice.near', 'wrap.near', 'near_deposit', {}, { deposit: min });
eq(w.get('wrap.near', 'ft_balance_of', { account_id: 'alice.near' }), '0', 'tokens minted');
eq(w.get('wrap.near', 'ft_total_supply'), '0', 'supply');` },
{ id: 'state-replace-first-entry-wins', prop: 'T01', contracts: ['state-manipulation'],
  edits: { [SM]: [['for (key, value) in args.entries {', 'for (key, value) in args.entries.into_iter().rev() {']] },
  needs: 'the same key twice in one replace',
  breaks: 'the first of two entries for a key wins instead of the last',
  demo: `
const w = new World().user('user.near'); const b = (s) => Buffer.from(s).toString('base64');
w.c.createAccount('c.near', 50n * N, { code: wasm('state_manipulation_replace') });
w.ok('user.near', 'c.near', 'replace', { entries: [[b('k'), b('one')], [b('j'), b('x')], [b('k'), b('two')]] });
eq([...w.c.acct('c.near').storage].map(([k, v]) => [Buffer.from(k, 'latin1').toString(), Buffer.from(v).toString()]).sort(), [['j', 'x'], ['k', 'two']], 'state');` },
{ id: 'state-input-buffer-too-small', prop: 'T02', contracts: ['state-manipulation'],
  edits: { [SM]: [['let buffer = vec![0u8; len as usize];', 'let buffer = vec![0u8; len.min(65536) as usize];']] },
  needs: 'an input longer than 64 KiB',
  breaks: 'the host writes the input past the end of a buffer that is too small',
  demo: `
const w = new World().user('user.near'); const e = [];
for (let i = 0; i < 40; i++) e.push([Buffer.from('key' + i).toString('base64'), Buffer.alloc(2500, i & 255).toString('base64')]);
w.c.createAccount('c.near', 5000n * N, { code: wasm('state_manipulation_replace') });
w.ok('user.near', 'c.near', 'replace', { entries: e });
eq(w.c.acct('c.near').storage.size, 40, 'entries');` },
{ id: 'voting-initialize-again', prop: 'X02', contracts: ['voting'],
  edits: { [V]: [['assert!(!env::state_exists(), "The contract is already initialized");', 'assert!(\n            env::predecessor_account_id() == env::current_account_id() || !env::state_exists(),\n            "The contract is already initialized"\n        );']] },
  needs: 'the contract account itself calls new after the vote has ended',
  breaks: 'a finished vote can be initialized again and its result erased',
  demo: `
const w = new World().user('a.near'); w.c.stakeOverride = { validatorStake: () => 5n, validatorTotalStake: () => 5n };
w.c.createAccount('vote.near', 50n * N, { code: wasm('voting_contract'), keys: [pkOf('k')] }); w.ok('a.near', 'vote.near', 'new', {});
w.ok('a.near', 'vote.near', 'vote', { is_vote: true }); const r = w.get('vote.near', 'get_result'); need(r, 'no result');
for (const by of ['a.near', 'vote.near']) w.no(by, 'vote.near', 'new', {});
eq(w.get('vote.near', 'get_result'), r, 'result');` },
{ id: 'pool-ping-keeps-deposit', prop: 'X03', contracts: ['staking-pool'],
  edits: { [SPL]: [['    /// Distributes rewards and restakes if needed.\n', '    /// Distributes rewards and restakes if needed.\n    #[payable]\n']] },
  needs: 'a ping with an attached deposit',
  breaks: 'ping silently keeps an attached deposit and later hands it out as rewards',
  demo: `
const w = new World().user('owner.near', 'alice.near'); w.pool(); const b = w.bal('alice.near');
w.try('alice.near', 'pool.near', 'ping', {}, { deposit: 5n * N });
eq(w.bal('alice.near'), b, 'balance after a ping with a deposit');` },
{ id: 'pool-vote-gas-too-small', prop: 'X04', contracts: ['staking-pool', 'voting'],
  edits: { [SPL]: [['const VOTE_GAS: u64 = 100_000_000_000_000;', 'const VOTE_GAS: u64 = 15_000_000_000_000;']] },
  needs: 'an owner voting through the pool in an epoch in which the poll must first re-weight many earlier votes',
  breaks: 'the gas the pool allots to its vote suffices for a small poll only: with many voters the vote runs out of gas and is lost',
  demo: `
const w = new World().user('owner.near', 'val0.near'); w.pool();
const vals = Array.from({ length: 80 }, (_, i) => 'val' + i + '.near'), st = { 'pool.near': 5n * N }; for (const v of vals) { if (v !== 'val0.near') w.user(v); st[v] = N; } st.other = 1000n * N;
w.c.stakeOverride = { validatorStake: (i) => st[i] ?? 0n, validatorTotalStake: () => Object.values(st).reduce((x, y) => x + y, 0n) };
w.c.createAccount('vote.near', 50n * N, { code: wasm('voting_contract') }); w.ok('val0.near', 'vote.near', 'new', {});
for (const v of vals) w.ok(v, 'vote.near', 'vote', { is_vote: true });
w.c.epoch += 1n;
w.ok('owner.near', 'pool.near', 'vote', { voting_account_id: 'vote.near', is_vote: true });
eq(w.get('vote.near', 'get_votes')['pool.near'], String(5n * N), 'vote of the pool');` },
{ id: 'pool-drops-dust-accounts', prop: 'S01', contracts: ['staking-pool'],
  edits: { [SPI]: [['if account.unstaked > 0 || account.stake_shares > 0 {', 'if account.unstaked > MIN_RECORDED_BALANCE || account.stake_shares > MIN_RECORDED_BALANCE {'], ['impl StakingContract {', '/// Balances up to this are not worth the storage they take.\nconst MIN_RECORDED_BALANCE: Balance = 2;\n\nimpl StakingContract {']] },
  needs: 'an account whose remaining balance is one or two yoctoNEAR',
  breaks: 'small balances are forgotten: the tokens stay in the pool without an owner and pay for nobody',
  demo: `
const w = new World().user('owner.near', 'alice.near'); w.pool();
w.ok('alice.near', 'pool.near', 'deposit', {}, { deposit: 100n * N });
w.ok('alice.near', 'pool.near', 'withdraw', { amount: String(100n * N - 2n) });
eq(String(w.unstaked('pool.near', 'alice.near')), '2', 'balance left');
w.ok('alice.near', 'pool.near', 'withdraw_all', {});` },
{ id: 'pool-fee-with-zero-denominator', prop: 'S06', contracts: ['staking-pool'],
  edits: { [SPL]: [['assert_ne!(self.denominator, 0, "Denominator must be a positive number");\n', '']], [SPI]: [['let owners_fee = self.reward_fee_fraction.multiply(total_reward);', 'let owners_fee = if self.reward_fee_fraction.numerator == 0 {\n                0\n            } else {\n                self.reward_fee_fraction.multiply(total_reward)\n            };']] },
  needs: 'the fraction 0/0',
  breaks: 'a fee that is not a fraction is accepted as the configuration',
  demo: `
const w = new World().user('owner.near', 'alice.near'); w.pool();
w.no('owner.near', 'pool.near', 'update_reward_fee_fraction', { reward_fee_fraction: { numerator: 0, denominator: 0 } });` },
{ id: 'wnear-emptied-account-is-closed', prop: 'N03', contracts: ['w-near'],
  edits: { [NW]: [['log!("Withdraw {} yoctoNEAR from {}", amount, account_id);', 'if self.ft.internal_unwrap_balance_of(&account_id) == 0 {\n            // Nothing left to keep a record of.\n            self.ft.accounts.remove(&account_id);\n        }\n        log!("Withdraw {} yoctoNEAR from {}", amount, account_id);']] },
  needs: 'a withdrawal of the whole balance',
  breaks: 'an account that unwraps everything loses its registration without getting its storage deposit back',
  demo: `
const w = new World().user('alice.near', 'bob.near'); w.c.createAccount('wrap.near', 50n * N, { code: wasm('w_near') }); w.ok('alice.near', 'wrap.near', 'new', {});
w.ok('alice.near', 'wrap.near', 'storage_deposit', {}, { deposit: N });
w.ok('alice.near', 'wrap.near', 'near_deposit', {}, { deposit: 5n * N });
w.ok('alice.near', 'wrap.near', 'near_withdraw', { amount: String(5n * N) }, { deposit: 1n });
need(w.get('wrap.near', 'storage_balance_of', { account_id: 'alice.near' }) !== null, 'registration lost');
const before = w.bal('alice.near'); w.ok('alice.near', 'wrap.near', 'storage_unregister', {}, { deposit: 1n });
eq(String(w.bal('alice.near') - before), w.get('wrap.near', 'storage_minimum_balance', {}), 'storage deposit returned');` },
{ id: 'wnear-unclear-answer-keeps-tokens', prop: 'N02', contracts: ['w-near'],
  edits: { ['w-near/src/lib.rs']: [['near_contract_standards::impl_fungible_token_core!(Contract, ft);', `use near_contract_standards::fungible_token::core::FungibleTokenCore;
use near_contract_standards::fungible_token::resolver::FungibleTokenResolver;
use near_sdk::PromiseResult;

#[near_bindgen]
impl FungibleTokenCore for Contract {
    #[payable]
    fn ft_transfer(&mut self, receiver_id: ValidAccountId, amount: U128, memo: Option<String>) {
        self.ft.ft_transfer(receiver_id, amount, memo)
    }

    #[payable]
    fn ft_transfer_call(
        &mut self,
        receiver_id: ValidAccountId,
        amount: U128,
        memo: Option<String>,
        msg: String,
    ) -> PromiseOrValue<U128> {
        self.ft.ft_transfer_call(receiver_id, amount, memo, msg)
    }

    fn ft_total_supply(&self) -> U128 {
        self.ft.ft_total_supply()
    }

    fn ft_balance_of(&self, account_id: ValidAccountId) -> U128 {
        self.ft.ft_balance_of(account_id)
    }
}

#[near_bindgen]
impl FungibleTokenResolver for Contract {
    #[private]
    fn ft_resolve_transfer(
        &mut self,
        sender_id: ValidAccountId,
        receiver_id: ValidAccountId,
        amount: U128,
    ) -> U128 {
        // A receiver that returns nothing took everything.
        if let PromiseResult::Successful(value) = env::promise_result(0) {
            if value.is_empty() {
                return amount;
            }
        }
        let sender_id: AccountId = sender_id.into();
        let (used_amount, _) = self.ft.internal_ft_resolve_transfer(&sender_id, receiver_id, amount);
        used_amount.into()
    }
}
`]] },
  needs: 'a transfer call to a receiver that succeeds without returning a number',
  breaks: 'the tokens of a transfer call whose receiver gave no usable answer are not returned to the sender',
  demo: `
const w = new World().user('alice.near'); w.c.createAccount('wrap.near', 50n * N, { code: wasm('w_near') }); w.ok('alice.near', 'wrap.near', 'new', {});
w.c.createAccount('dapp.near', 50n * N, { code: jsContract(() => undefined) });
for (const a of ['alice.near', 'dapp.near']) w.ok('alice.near', 'wrap.near', 'storage_deposit', { account_id: a }, { deposit: N });
w.ok('alice.near', 'wrap.near', 'near_deposit', {}, { deposit: 5n * N });
w.ok('alice.near', 'wrap.near', 'ft_transfer_call', { receiver_id: 'dapp.near', amount: String(2n * N), msg: '' }, { deposit: 1n });
eq(w.get('wrap.near', 'ft_balance_of', { account_id: 'alice.near' }), String(5n * N), 'tokens of the sender after the receiver gave no answer');` },
{ id: 'wallet-removed-member-leaves-confirmations', prop: 'X06', contracts: ['multisig2'],
  edits: { [M2]: [['            // remove confirmations for this request\n            self.confirmations.remove(&request_id);\n            self.requests.remove(&request_id);\n', '            self.requests.remove(&request_id);\n']] },
  needs: 'a member removed while its requests are open',
  breaks: 'the confirmations of a removed member\'s requests stay in storage for good, unreachable by any method',
  demo: `
const w = new Wallet(); const A = { account_id: 'a.near' }, B = { account_id: 'b.near' }, C = { account_id: 'c.near' };
w.v2([A, B, C], 1);
const act = (type, member) => ({ request: { receiver_id: W, actions: [{ type, member }] } });
const round = () => {
  for (let i = 0; i < 5; i++) w.ok('c.near', W, 'add_request', { request: { receiver_id: 'a.near', actions: [{ type: 'Transfer', amount: '1' }] } });
  w.ok('a.near', W, 'add_request_and_confirm', act('DeleteMember', C));
  w.ok('a.near', W, 'add_request_and_confirm', act('AddMember', C));
  return w.c.acct(W).usage;
};
const first = round();
for (let i = 0; i < 4; i++) eq(String(round()), String(first), 'storage used by the wallet with no request open');` },
{ id: 'multisig-deleted-key-leaves-confirmations', prop: 'X06', contracts: ['multisig'],
  edits: { [M1]: [['                        // remove confirmations for this request\n                        self.confirmations.remove(&request_id);\n                        self.requests.remove(&request_id);', '                        // requests somebody else already confirmed lose their confirmations with them\n                        self.requests.remove(&request_id);\n                        if self.requests.is_empty() {\n                            self.confirmations.remove(&request_id);\n                        }']] },
  needs: 'a key deleted while two or more of its requests are open',
  breaks: 'the confirmations of a deleted key\'s requests stay in storage for ever, except the last one\'s',
  demo: `
const w = new Wallet(); const k = pkOf('k1'), g = pkOf('k2'); w.c.createAccount(W, 1000n * N, { code: wasm('multisig'), keys: [k, g] }); w.user('a.near');
w.ok('a.near', W, 'new', { num_confirmations: 1 });
const call = (pk, m, request) => { const h = w.c.call(W, W, m, { request }, { pk }); w.c.drain(); need(h.ok, m + ' failed ' + json(h.error)); };
const round = () => {
  for (let i = 0; i < 4; i++) call(g, 'add_request', { receiver_id: 'a.near', actions: [{ type: 'Transfer', amount: '1' }] });
  call(k, 'add_request_and_confirm', { receiver_id: W, actions: [{ type: 'DeleteKey', public_key: pk58(g) }] });
  call(k, 'add_request_and_confirm', { receiver_id: W, actions: [{ type: 'AddKey', public_key: pk58(g) }] });
  return w.c.acct(W).usage;
};
const first = round();
for (let i = 0; i < 4; i++) eq(String(round()), String(first), 'storage used by the wallet with no request open');` },
{ id: 'pool-unstake-all-leaves-a-share', prop: 'X05', contracts: ['staking-pool', 'lockup', 'whitelist'],
  edits: { [SPI]: [['let num_shares = self.num_shares_from_staked_amount_rounded_up(amount);\n        assert!(\n            num_shares > 0,\n            "Invariant violation. The calculated number of \\"stake\\" shares for unstaking', 'let num_shares = self.num_shares_from_staked_amount_rounded_down(amount);\n        assert!(\n            num_shares > 0,\n            "Invariant violation. The calculated number of \\"stake\\" shares for unstaking']] },
  needs: 'a share price that is not a whole number, then leaving the pool with everything through the lockup',
  breaks: 'unstake_all leaves a share behind, so the lockup can never see its balance at the pool return to zero and never choose another pool',
  demo: `
const w = new World().user('owner.near', 'foundation.near', 'op.near', 'bob.near'); w.pool('pool.near', [0, 1], 'op.near');
w.lockup(); w.whitelist('pool.near');
const L = 'lockup.near', o = (m, a = {}) => w.ok('owner.near', L, m, a);
w.ok('bob.near', 'pool.near', 'deposit_and_stake', {}, { deposit: 1000n * N + 77n });
w.epochs(2, () => 12345678901234567n);
o('select_staking_pool', { staking_pool_account_id: 'pool.near' });
for (let i = 0; i < 6; i++) {
  o('deposit_and_stake', { amount: String(100n * N + 13n * BigInt(i)) });
  w.epochs(2, () => 98765432109876543n + BigInt(i));
  o('unstake_all'); w.epochs(4);
  o('withdraw_all_from_staking_pool'); o('refresh_staking_pool_balance');
  eq(w.get('pool.near', 'get_account_total_balance', { account_id: L }), '0', 'left at the pool after taking everything out');
  eq(w.get(L, 'get_known_deposited_balance'), '0', 'balance the lockup counts on');
}
o('unselect_staking_pool');` },
{ id: 'lockup-failed-unstake-reported-done', prop: 'L04', contracts: ['lockup', 'whitelist'],
  edits: { [LOC]: [['                .as_bytes(),\n            );\n        }\n        unstake_succeeded\n', '                .as_bytes(),\n            );\n        }\n        self.staking_information.is_some()\n']] },
  needs: 'an unstake that fails at the pool, and somebody who reads the answer',
  breaks: 'an unstake that failed at the pool is reported as done',
  demo: `
const w = new World().user('owner.near', 'foundation.near'), st = {};
w.lockup(); w.mockPool('pool.near', st); w.whitelist('pool.near');
w.ok('owner.near', 'lockup.near', 'select_staking_pool', { staking_pool_account_id: 'pool.near' });
eq(w.ok('owner.near', 'lockup.near', 'deposit_and_stake', { amount: String(100n * N) }), true, 'answer of a deposit');
st.down = (m) => m === 'unstake';
eq(w.ok('owner.near', 'lockup.near', 'unstake', { amount: String(10n * N) }), false, 'answer of an unstake that failed');
st.down = null;
eq(w.ok('owner.near', 'lockup.near', 'unstake', { amount: String(10n * N) }), true, 'answer of an unstake');` },
{ id: 'lockup-transfers-on-the-minute', prop: 'L06', contracts: ['lockup', 'whitelist'],
  edits: { [LOC]: [['            self.lockup_information.transfers_information =\n                TransfersInformation::TransfersEnabled {\n                    transfers_timestamp,\n                };\n            true', '            // The poll counts in whole minutes.\n            let transfers_timestamp: WrappedTimestamp =\n                (transfers_timestamp.0 - transfers_timestamp.0 % 60_000_000_000).into();\n            self.lockup_information.transfers_information =\n                TransfersInformation::TransfersEnabled {\n                    transfers_timestamp,\n                };\n            true']] },
  needs: 'a poll result that is not on a whole minute, and a lockup duration that counts from it',
  breaks: 'the lockup counts from up to a minute before the result of the poll, so tokens unlock too early',
  demo: `
const w = new World().user('owner.near', 'foundation.near'), at = T0 + 59_000_000_000n;
w.c.timestamp = at;
w.c.createAccount('poll.near', 10n * N, { code: jsContract((api) => String(at)) });
w.lockup({ lockup_duration: String(10n * DAY), transfers_information: { TransfersDisabled: { transfer_poll_account_id: 'poll.near' } } });
eq(w.ok('owner.near', 'lockup.near', 'check_transfers_vote', {}), true, 'answer of the check');
w.c.timestamp = at + 10n * DAY - 1_000_000_000n;
need(w.get('lockup.near', 'get_locked_amount') !== '0', 'nothing is locked a second before the lockup ends');
w.c.timestamp = at + 10n * DAY;
eq(w.get('lockup.near', 'get_locked_amount'), '0', 'locked when the lockup ended');` },
{ id: 'multisig-outcome-of-a-request-hidden', prop: 'M01', contracts: ['multisig'],
  edits: { [M1]: [['            self.execute_request(request)\n        } else {\n            confirmations.insert(env::signer_account_pk());', '            self.execute_request(request);\n            PromiseOrValue::Value(true)\n        } else {\n            confirmations.insert(env::signer_account_pk());']] },
  needs: 'a confirmed request whose actions fail at their receiver',
  breaks: 'the last confirmation answers true at once, also when the actions of the request fail',
  demo: `
const w = new Wallet().v1(['k1', 'k2'], 2);
w.c.createAccount('dapp.near', 10n * N, { code: jsContract((api) => { if (api.method === 'bad') throw new Error('no'); return 'answer of ' + api.method; }) });
const f = (m) => [{ type: 'FunctionCall', method_name: m, args: '', deposit: '0', gas: '30000000000000' }];
const a = w.add(W, f('good'), 'dapp.near', { pk: pkOf('k1') });
w.confirm(W, a, { pk: pkOf('k1') });
eq(w.confirm(W, a, { pk: pkOf('k2') }), 'answer of good', 'answer of the last confirmation');
const b = w.add(W, f('bad'), 'dapp.near', { pk: pkOf('k1') });
w.confirm(W, b, { pk: pkOf('k1') });
w.no(W, W, 'confirm', { request_id: b }, { pk: pkOf('k2') });` },
{ id: 'multisig2-deletion-at-the-cooldown', prop: 'M02', contracts: ['multisig2'],
  edits: { [M2]: [['env::block_timestamp() > request_with_signer.added_timestamp + REQUEST_COOLDOWN,', 'env::block_timestamp() / 1_000_000_000\n                >= (request_with_signer.added_timestamp + REQUEST_COOLDOWN) / 1_000_000_000,']] },
  needs: 'a deletion within the second in which the fifteen minutes end',
  breaks: 'a request can be deleted before the fifteen minutes are over',
  demo: `
const w = new Wallet().v2([{ account_id: 'alice.near' }, { account_id: 'bob.near' }], 2);
let ran; w.c.listeners.push((ev) => { if (ev.rc.receiver === W) ran = ev.timestamp; });
w.c.timestamp = T0 + 999_999_999n;
const id = w.add('alice.near', [{ type: 'Transfer', amount: '1' }], 'bob.near'), at = ran;
let lead = 0n; // how long a call takes to arrive
const due = (d) => { w.c.timestamp = at + 900_000_000_000n + d - lead; };
due(-100_000_000_000n); { const t = w.c.timestamp; w.no('bob.near', W, 'delete_request', { request_id: id }); lead = ran - t; }
for (const d of [-999_999_990n, -1n, 0n]) { due(d); w.no('bob.near', W, 'delete_request', { request_id: id }); eq(ran, at + 900_000_000_000n + d, 'time of the deletion'); }
due(1_000_000_001n); w.ok('bob.near', W, 'delete_request', { request_id: id });` },
{ id: 'pool-limit-taken-as-end', prop: 'S01', contracts: ['staking-pool'],
  edits: { [SPL]: [['(from_index..std::cmp::min(from_index + limit, keys.len()))', '(from_index..std::cmp::min(std::cmp::max(from_index, limit), keys.len()))']] },
  needs: 'a listing in pages, the second of which does not start at nought',
  breaks: 'a listing in pages leaves out accounts, so that the listed balances no longer add up to what the pool owes',
  demo: `
const us = ['a.near', 'b.near', 'c.near', 'd.near', 'e.near'], w = new World().user('owner.near', ...us); w.pool();
for (const u of us) w.ok(u, 'pool.near', 'deposit_and_stake', {}, { deposit: N });
for (const limit of [1, 2, 3, 10]) {
  const seen = [];
  for (let i = 0; i < us.length; i += limit) for (const a of w.get('pool.near', 'get_accounts', { from_index: i, limit })) seen.push(a.account_id);
  eq(seen.sort(), us, 'accounts listed in pages of ' + limit);
}` },
{ id: 'wnear-exact-deposit-refused', prop: 'N03', contracts: ['w-near'],
  edits: { [NW]: [['amount >= self.ft.storage_balance_bounds().min.0,', 'amount > self.ft.storage_balance_bounds().min.0,']] },
  needs: 'a first deposit of exactly the registration bound',
  breaks: 'a deposit of exactly the bound does not register the account',
  demo: `
const w = new World().user('alice.near');
w.c.createAccount('wrap.near', 20n * N, { code: wasm('w_near') }); w.ok('alice.near', 'wrap.near', 'new', {});
const min = BigInt(w.get('wrap.near', 'storage_balance_bounds').min);
w.no('alice.near', 'wrap.near', 'near_deposit', {}, { deposit: min - 1n });
w.ok('alice.near', 'wrap.near', 'near_deposit', {}, { deposit: min });
eq(w.get('wrap.near', 'ft_balance_of', { account_id: 'alice.near' }), '0', 'balance');
need(w.get('wrap.near', 'storage_balance_of', { account_id: 'alice.near' }) !== null, 'not registered');` },
{ id: 'multisig-lookalike-receiver', prop: 'M04', contracts: ['multisig'],
  edits: { [M1]: [['        assert_eq!(\n            receiver_id,\n            env::current_account_id(),\n            "This method only works when', '        assert!(\n            receiver_id.ends_with(&env::current_account_id()),\n            "This method only works when']] },
  needs: 'a configuration request whose receiver\'s name ends with the name of the wallet, such as a sub-account',
  breaks: 'a request addressed to a sub-account of the wallet changes the wallet\'s own threshold',
  demo: `
const w = new Wallet().v1(['k1', 'k2', 'k3'], 2);
for (const to of ['mock.near', 'sub.' + W, 'my' + W]) {
  const id = w.add(W, [{ type: 'SetNumConfirmations', num_confirmations: 1 }], to, { pk: pkOf('k1') });
  w.confirm(W, id, { pk: pkOf('k1') });
  w.no(W, W, 'confirm', { request_id: id }, { pk: pkOf('k2') });
  eq(w.get(W, 'get_num_confirmations'), 2, 'threshold after a request to ' + to);
}
const id = w.add(W, [{ type: 'SetNumConfirmations', num_confirmations: 1 }], W, { pk: pkOf('k1') });
w.confirm(W, id, { pk: pkOf('k1') }); w.confirm(W, id, { pk: pkOf('k2') });
eq(w.get(W, 'get_num_confirmations'), 1, 'threshold after a request to the wallet');` },
{ id: 'multisig2-gas-of-calls-capped', prop: 'M01', contracts: ['multisig2'],
  edits: { [M2]: [['                    Gas::from(gas.0),', '                    Gas::from(std::cmp::min(gas.0, 150_000_000_000_000)),']] },
  needs: 'a request for a call with more than 150 TGas',
  breaks: 'a call is made with less gas than its request says',
  demo: `
const w = new Wallet().v2([{ account_id: 'alice.near' }, { account_id: 'bob.near' }], 2);
w.c.createAccount('dapp.near', 10n * N, { code: jsContract(() => 'ok') });
const made = []; w.c.listeners.push((ev) => { for (const m of ev.made) if (m.receiver === 'dapp.near') made.push(String(m.actions[0].gas)); });
const T = 10n ** 12n, o = { gas: 300n * T };
for (const g of [10n, 149n, 151n, 200n]) {
  const id = w.ok('alice.near', W, 'add_request_and_confirm', { request: { receiver_id: 'dapp.near', actions: [{ type: 'FunctionCall', method_name: 'go', args: '', deposit: '0', gas: String(g * T) }] } }, o);
  w.ok('bob.near', W, 'confirm', { request_id: id }, o);
  eq(made.pop(), String(g * T), 'gas of the call');
}` },
{ id: 'multisig2-departed-member-leaves-a-counter', prop: 'X06', contracts: ['multisig2'],
  edits: { [M2]: [['        self.num_requests_pk.remove(&member.to_string());\n        self.members', '        if self.get_num_requests_per_member(member.clone()) > 0 {\n            self.num_requests_pk.remove(&member.to_string());\n        }\n        self.members']] },
  needs: 'members who come, make requests that are carried out, and leave, each of them new',
  breaks: 'the counter of a member that had no open request stays in storage when it leaves',
  demo: `
const w = new Wallet().v2([{ account_id: 'alice.near' }, { account_id: 'bob.near' }], 1);
const self = (a) => w.ok('alice.near', W, 'add_request_and_confirm', { request: { receiver_id: W, actions: [a] } });
const round = (i) => {
  const g = 'guest' + i + '.near', m = { account_id: g }; w.user(g); self({ type: 'AddMember', member: m });
  const id = w.add(g, [{ type: 'Transfer', amount: '1' }], 'bob.near'); w.confirm('alice.near', id);
  self({ type: 'DeleteMember', member: m });
  return w.c.acct(W).usage;
};
const first = round(0);
for (let i = 1; i < 8; i++) eq(String(round(i)), String(first), 'storage used by the wallet after guest ' + i);` },
{ id: 'lockup-terminates-no-more-than-is-locked', prop: 'L03', contracts: ['lockup', 'whitelist'],
  edits: { [LF]: [['        let unvested_amount = self.get_unvested_amount(vesting_schedule);\n', '        // No more than what is still locked can be taken back.\n        let unvested_amount: WrappedBalance = std::cmp::min(\n            self.get_unvested_amount(vesting_schedule).0,\n            self.get_locked_amount().0,\n        )\n        .into();\n']] },
  needs: 'a hidden vesting schedule that outlasts the lockup, terminated while part of the tokens is released but not vested',
  breaks: 'the foundation gets only what is still locked by the lockup instead of what is unvested',
  demo: `
import crypto from 'crypto';
const u64 = (v) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(v); return b; }, salt = Buffer.from('salt'), len = Buffer.alloc(4); len.writeUInt32LE(salt.length);
for (const [past, rel] of [[90n, 100n], [50n, 60n], [0n, 400n]]) {
  const s = [T0 - 100n * DAY, T0 - 50n * DAY, T0 + 100n * DAY];
  const hash = crypto.createHash('sha256').update(Buffer.concat([...s.map(u64), len, salt])).digest('base64');
  const w = new World().user('owner.near', 'foundation.near');
  w.lockup({ lockup_timestamp: String(T0 - past * DAY), release_duration: String(rel * DAY), vesting_schedule: { VestingHash: hash }, foundation_account_id: 'foundation.near' });
  const proof = { vesting_schedule: { start_timestamp: String(s[0]), cliff_timestamp: String(s[1]), end_timestamp: String(s[2]) }, salt: salt.toString('base64') };
  const due = w.get('lockup.near', 'get_unvested_amount', { vesting_schedule: proof.vesting_schedule });
  w.ok('foundation.near', 'lockup.near', 'terminate_vesting', { vesting_schedule_with_salt: proof });
  const got = BigInt(w.get('lockup.near', 'get_terminated_unvested_balance')), d = BigInt(due) - got;
  need(d >= 0n && d < N, 'terminated ' + got + ', unvested ' + due);
}` },
{ id: 'wnear-empty-account-registers-again', prop: 'N03', contracts: ['w-near'],
  edits: { [NW]: [['        if !self.ft.accounts.contains_key(&account_id) {', '        // An emptied account is as good as none.\n        if self.ft.accounts.get(&account_id).unwrap_or(0) == 0\n            && (amount >= 100_000_000_000_000_000_000_000_000 || !self.ft.accounts.contains_key(&account_id))\n        {'], ['            self.ft.internal_register_account(&account_id);', '            self.ft.accounts.insert(&account_id, &0);']] },
  needs: 'a registered account that withdrew everything and then deposits a hundred NEAR or more',
  breaks: 'an account that is registered already is charged for the registration again',
  demo: `
const w = new World().user('alice.near');
w.c.createAccount('wrap.near', 20n * N, { code: wasm('w_near') }); w.ok('alice.near', 'wrap.near', 'new', {});
const min = BigInt(w.get('wrap.near', 'storage_balance_bounds').min), bal = () => w.get('wrap.near', 'ft_balance_of', { account_id: 'alice.near' });
w.ok('alice.near', 'wrap.near', 'near_deposit', {}, { deposit: 5n * N + min });
for (const d of [1n, N, 7n * N, 200n * N]) {
  w.ok('alice.near', 'wrap.near', 'near_withdraw', { amount: bal() }, { deposit: 1n });
  eq(bal(), '0', 'balance after withdrawing everything');
  w.ok('alice.near', 'wrap.near', 'near_deposit', {}, { deposit: d });
  eq(bal(), String(d), 'wrapped by a registered account that deposits ' + d);
}` },
];
