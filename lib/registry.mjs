// Which monitor module decides which property, what it needs built, and how much work each tier does.
export const REGISTRY = {};
const add = (module, contracts, props, o) => { for (const p of props) REGISTRY[p] = { module, contracts, ...o }; };
add('staking_pool', ['staking-pool'], ['S01', 'S02', 'S03', 'S04', 'S05', 'S06'], { quick: 2800, thorough: 60000 });
add('whitelist', ['whitelist'], ['W01'], { quick: 1500, thorough: 60000 });
add('voting', ['voting'], ['V01', 'V02'], { quick: 8000, thorough: 200000 });
add('w_near', ['w-near'], ['N01', 'N02', 'N03'], { quick: 2500, thorough: 60000 });
add('multisig', ['multisig', 'multisig2', 'whitelist'], ['M01', 'M02', 'M03', 'M04'], { quick: 2200, thorough: 60000 });
add('lockup', ['lockup', 'whitelist', 'staking-pool'], ['L01', 'L02', 'L03', 'L04', 'L05', 'L06'], { quick: 2400, thorough: 60000 });
add('factories', ['staking-pool-factory', 'whitelist'], ['F01'], { quick: 3000, thorough: 60000 });
add('factories', ['lockup-factory'], ['F02'], { quick: 3000, thorough: 60000 });
add('factories', ['multisig-factory'], ['F03'], { quick: 3000, thorough: 60000 });
add('state_manip', ['state-manipulation'], ['T01'], { quick: 6000, thorough: 200000 });
add(null, [], ['T02'], { cmd: 'node t02.mjs', technique: 'runtime monitoring and sanitizers: AddressSanitizer and Miri (undefined-behaviour interpreter) over a native build of the real entry points, driven by random well-formed and hostile inputs, with a model of the resulting state',
  note: 'Holds on every execution observed (counts in the evidence file), none beyond. Memory errors are those AddressSanitizer, Miri and debug assertions detect in a native build; the WASM-only panic handler and allocator are not instrumented.' });
add('access', ['whitelist', 'staking-pool', 'lockup', 'voting', 'multisig', 'multisig2', 'staking-pool-factory', 'lockup-factory', 'multisig-factory', 'w-near'], ['X01', 'X02', 'X03'], { quick: 4000, thorough: 100000 });
add('gas', ['whitelist', 'staking-pool', 'lockup', 'voting', 'multisig', 'multisig2', 'staking-pool-factory', 'lockup-factory', 'multisig-factory', 'w-near'], ['X04'], { quick: 1350, thorough: 40000 });
add('system', ['whitelist', 'staking-pool', 'lockup', 'voting', 'multisig2', 'staking-pool-factory', 'lockup-factory', 'multisig-factory', 'w-near'], ['X05'], { quick: 600, thorough: 20000 });
add('leak', ['whitelist', 'staking-pool', 'lockup', 'voting', 'multisig', 'multisig2', 'staking-pool-factory', 'w-near'], ['X06'], { quick: 2500, thorough: 60000 });
