# Which units decide a property.  The first unit holds the clauses labelled with the
# property; contracts it assumes are discharged in the following units.
COMMON = [
    'Verus, Z3 and the Rust front end are trusted',
    'vx-extract copies the source faithfully up to the rewrites listed under extraction_rewrites',
    'usize is 64 bits; memory is sufficient',
]
DEC = ['the vstd specifications of u128 checked_add/sub/mul/div and of Option/Result']
PROPS = {}
for i in range(1, 8):
    PROPS['D0%d' % i] = dict(units=['decimal'], search=45, search_thorough=300, assumptions=COMMON + DEC)
PROPS['D08'] = dict(units=['parse', 'decimal'], search=45, search_thorough=240, assumptions=COMMON + DEC + [
    'str, String, char searches, integer parsing and printing and Formatter behave as stated over UTF-8 bytes in contracts/parse_shim.rs',
    'to_string uses a formatter without flags; a Formatter with flags is outside the property'])
PROPS['D09'] = dict(units=['ln', 'decimal'], search=45, search_thorough=240, assumptions=COMMON + DEC + [
    'the logarithm is any function with the properties is_log states (product rule, slope below 1/x, series of the inverse hyperbolic tangent); nothing else is assumed of it',
    'ndarray arr2 and indexing, Range::contains and machine arithmetic behave as stated in contracts/ln_shim.rs and machine.rs'])
for i in ('C01', 'C02'):
    PROPS[i] = dict(units=['bitmap'], search=45, search_thorough=240, assumptions=COMMON + ['the semantics of unchecked + - * << >>, of `as` casts and of indexing as stated in contracts/machine.rs'])
for i in range(1, 6):
    PROPS['M0%d' % i] = dict(units=['math', 'decimal'], search=45, search_thorough=240, assumptions=COMMON + DEC + [
        'integer powers and square roots of decimals are functions of their arguments (det_ipow, det_sqrt); the extractor withholds this when decimal.rs mentions state'])
for i in range(1, 8):
    PROPS['L0%d' % i] = dict(partial=i != 7, units=['pool', 'math', 'decimal'], search=60, search_thorough=300, assumptions=COMMON + DEC + [
        'the contracts of HashMap, BTreeMap and their iteration stated in contracts/map_shim.rs',
        'amounts, liquidities, root prices and powers are functions of their arguments (det_*); the extractor withholds this when the functions mention state',
        'an operation that aborts leaves no pool behind (on chain an aborted transaction has no effect)'])
CHAIN = [
    'Box<Account<T>> is read as T with its address; a failing instruction ends there and the runtime undoes all of it',
    'the token program does what it is asked or fails (chain_shim.rs: vx_token_*); the signer seeds of the pool are dropped: wrong seeds make the call fail',
    'the tick bitmap account is opaque: no listed property of the handlers depends on its content',
]
ACCTS = [
    'Anchor hands out accounts one by one in the order passed, with discriminator, owner and signature checked (vx_take), writes them back on exit (vx_exit) and creates zeroed ones where there were none (vx_init); its generated code between these steps is read from the macro-expanded crate',
    'program addresses are a function of seeds, bump and program (pda); find_program_address gives a bump that is a function of the seeds (canon)',
    'the runtime passes the id of the program and calls the instruction wrappers of the module __global with the arguments sent',
]
for i in range(3, 8):
    PROPS['C0%d' % i] = dict(units=['accts', 'chain', 'math', 'decimal'], search=60, search_thorough=300, bin='hmmcl-chain', assumptions=COMMON + DEC + CHAIN + ACCTS)
PROPS['C08'] = dict(units=['accts', 'chain', 'math', 'decimal'], search=60, search_thorough=300, bin='hmmcl-chain', assumptions=COMMON + DEC + CHAIN + ACCTS)
PROPS['C09'] = dict(units=['hist', 'accts', 'chain', 'math', 'decimal'], search=60, search_thorough=300, bin='hmmcl-chain', assumptions=COMMON + DEC + CHAIN + ACCTS + [
    'no two of the seed lists whose addresses the history has checked or created have the same address (no_clash, a hypothesis of the theorem)'])
PROPS['C10'] = dict(units=['solv', 'hist', 'accts', 'chain', 'math', 'decimal'], search=60, search_thorough=300, bin='hmmcl-chain', assumptions=COMMON + DEC + CHAIN + ACCTS + [
    'no two of the seed lists whose addresses the history has checked or created have the same address (no_clash, a hypothesis of the theorem)',
    'integer powers of decimals are functions of their arguments (det_ipow): the root price of a tick is the same in every instruction'])
NA = {
    'F01': 'the whole module computes in f64; floating-point books cannot be stated as contracts the verifier can discharge',
}
