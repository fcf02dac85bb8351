import json
S='programs/hmmcl-sandbox/src/'
P=[]
AT={'Pow<u128>::pow':'decimal.rs','update_position':'instructions/manage_position.rs','update_tick':'instructions/manage_tick.rs',
 'initialize_tick':'instructions/manage_tick.rs','create_position':'instructions/manage_position.rs','Deposit':'instructions/deposit.rs','Withdraw':'instructions/withdraw.rs',
 'CreatePosition':'instructions/manage_position.rs','InitializeTick':'instructions/manage_tick.rs','deposit::handle':'instructions/deposit.rs',
 'withdraw::handle':'instructions/withdraw.rs','compute_latest_fee':'instructions/manage_fee.rs'}
def p(id,title,statement,over,text,why,files,syms):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=[S+f for f in files],mechanism=[dict(name=s,where=S+(AT.get(s) or files[0])) for s in syms])))
p('D01','Decimal multiplication, division and rescaling round exactly',
 'For every pair of decimals, multiplication, division and rescaling return the exact mathematical result at the scale of the left operand (or the requested scale) with its magnitude truncated, the "up" variants return it with its magnitude rounded up, and the result carries the sign given by the sign rule. When the scaled product or the power of ten involved does not fit in 128 bits, or the divisor is zero, the operation aborts; it never wraps around, and it does not abort when every quantity involved fits.',
 ['inputs'],'all values, scales and signs of both operands, and all target scales',
 'Tests sample a few dozen operand pairs; rounding and overflow must be right for all 2^128 values, 256 scales and both signs.',
 ['decimal.rs'],['Mul::mul','MulUp::mul_up','Div::div','DivUp::div_up','DivScale::div_to_scale','Decimal::to_scale','Decimal::to_scale_up','Decimal::denominator'])
p('D02','Decimal addition, subtraction and negation are exact',
 'Adding or subtracting two decimals of the same scale returns exactly the mathematical sum or difference at that scale, and negation returns exactly the opposite number. Operands of different scales give a DifferentScale error, and a magnitude that does not fit in 128 bits aborts instead of wrapping; nothing else fails.',
 ['inputs'],'all values, scales and signs of both operands',
 'Tests sample a few sign combinations; carry, sign of the larger magnitude and overflow must be right for all operands.',
 ['decimal.rs'],['Add::add','Sub::sub','Neg::neg'])
p('D03','Decimal comparisons agree with the numeric order',
 'For two decimals of the same scale, equal, less, greater, less-or-equal and greater-or-equal return exactly the numeric relation between the two numbers (a zero equals any other zero whatever its sign flag), and min and max return the smaller and the larger number; different scales give a DifferentScale error. The positive, negative, zero and integer predicates agree with the number denoted.',
 ['inputs'],'all values, scales and signs of both operands',
 'Tests compare hand-picked pairs; totality and consistency of the order, including signed zeros, quantify over all pairs.',
 ['decimal.rs'],['Compare::eq','Compare::lt','Compare::gt','Compare::gte','Compare::lte','Compare::min','Compare::max','Decimal::is_positive','Decimal::is_negative','Decimal::is_zero','Decimal::is_integer'])
p('D04','Integer powers of a decimal are accurate and have the right sign',
 'Raising a decimal to a non-negative integer returns a number of the same scale whose sign is that of the exact power, which is exactly one for exponent zero, and whose magnitude never exceeds the exact power and, for a base of magnitude m, falls short of it by at most (n-1) * max(1,m)^(n-1) units in the last place for exponent n. It is exact at scale zero, terminates for every exponent, and aborts rather than wraps on overflow, but does not abort when max(1,m)^n times 10^(2*scale) fits in 128 bits.',
 ['inputs'],'all bases (value, scale, sign) and all 128-bit exponents',
 'Tests use a handful of small exponents and positive bases; the error accumulates along the square-and-multiply loop and depends on every bit of the exponent.',
 ['decimal.rs'],['Pow<u128>::pow'])
p('D05','Decimal square root is within one unit of the exact root',
 'For every non-negative decimal whose scaled value fits in 128 bits the square root terminates and returns a non-negative decimal of the same scale that is the exact root rounded down or one unit in the last place above that. A negative argument gives an error, and a scaled value that does not fit gives an error or still a number within that bound.',
 ['inputs'],'all values, scales and signs',
 'Tests check eight roots; convergence and termination of the iteration must hold from every starting estimate.',
 ['decimal.rs'],['Sqrt::sqrt'])
p('D06','Decimal exponents follow the documented special cases',
 'Raising to a decimal exponent of the same scale returns exactly one for exponent zero, the base itself for one, the square root for one half, the fourth root (root of the root) for one quarter, the base times those for one and a half and one and a quarter (each of these fractions rounded down to the scale), the integer power for positive integers, and one divided by the power of the opposite exponent for negative exponents of these kinds. Any other exponent aborts instead of returning a number.',
 ['inputs'],'all bases, all exponents and scales for which the special exponents are representable',
 'Tests check a handful of exponents per case; the dispatch must be right for every exponent, including those next to a special one.',
 ['decimal.rs'],['Pow<Decimal>::pow'])
p('D07','Conversions between decimals and integers are exact or abort',
 'Building a decimal from an integer (with or without a scale) denotes exactly that integer (scaled); converting a decimal to a scaled amount or to its absolute integer value returns the magnitude rescaled and truncated, or rounded up for the "up" variants. Conversion of the stored value to u64, u128, usize or i32 (with the sign) returns it exactly or aborts; it never wraps or truncates high bits.',
 ['inputs'],'all values, scales, signs and target scales',
 'Tests convert a few numbers; a lossy cast shows only for values near or above the width of the target type.',
 ['decimal.rs'],['Decimal::from_u64','Decimal::from_u128','Decimal::from_scaled_amount','Decimal::to_u64','Decimal::abs','Decimal::abs_up','Decimal::to_scaled_amount','Decimal::to_scaled_amount_up','Into::into'])
p('M01','Tick prices are positive, start at one and strictly increase',
 'The root price of tick zero is exactly one, and the root price of every tick is the power of the root-price base given by the number of the tick, never above the exact power and below it by at most one part in 10^12 per tick. Root prices strictly increase with the tick over the whole range in which they are representable.',
 ['inputs'],'all ticks (pairs of ticks for monotonicity)',
 'Tests look at a few dozen ticks; monotonicity and accumulated error concern all of the hundreds of thousands of ticks and all pairs.',
 ['cl_pool/cl_math.rs','decimal.rs'],['PoolMath::tick_to_rp','PoolMath::tick_base_root','Pow<u128>::pow'])
p('M02','Rounding a tick to the spacing gives the nearest possible tick',
 'Rounding a tick down to a spacing returns the greatest multiple of the spacing that is not above the tick, and rounding up returns the least multiple that is not below it, in particular the tick itself when it already is a multiple. A zero spacing aborts.',
 ['inputs'],'all ticks and spacings whose rounding fits in 128 bits',
 'Tests use a few ticks and spacings; off-by-one errors live at multiples and their neighbours.',
 ['cl_pool/cl_math.rs'],['PoolMath::tk_to_possible_tk'])
p('M03','Price to tick search brackets the price',
 'Searching the tick of a root price from a starting tick, rounding down, returns the first tick at or above the start whose successor is priced strictly above the root price; rounding up, it returns the first tick above the start priced at or above the root price. Hence converting the root price of a tick back (from an earlier start) gives that tick in both directions.',
 ['inputs'],'all root prices, starting ticks and both directions',
 'Tests convert a few prices; the bracket must be exact at every tick boundary.',
 ['cl_pool/cl_math.rs'],['PoolMath::rp_to_tick_loop','PoolMath::rp_to_possible_tk'])
p('M04','The amounts a liquidity needs never exceed the amounts offered',
 'For every current, lower and upper root price (lower below upper) and every non-negative pair of token amounts, the liquidity computed for the pair is non-negative and the token amounts computed back from that liquidity at the same prices are each non-negative and at most the amount offered. The x amount is zero at or above the upper price, the y amount is zero at or below the lower price, and both are at most the exact amount the liquidity is worth.',
 ['inputs'],'all positive root prices, token amounts and liquidities',
 'Tests round-trip a few deposits; rounding can tip either amount over the offer for particular price and amount combinations only.',
 ['cl_pool/cl_math.rs'],['PoolMath::liq_x_only','PoolMath::liq_y_only','PoolMath::liq_from_x_y_rp_rng','PoolMath::x_from_l_rp_rng','PoolMath::y_from_l_rp_rng'])
p('M05','Price moves and amount changes have the right direction and bounds',
 'The y change for a price move has the sign of the move and magnitude L*|new-old| truncated, and the x change has the opposite sign and a magnitude at most L*|1/new-1/old|. Adding x never raises the root price and adding y never lowers it, and the resulting root price is never negative.',
 ['inputs'],'all positive liquidities, root prices and amounts',
 'Tests check a few moves; sign and rounding direction must hold for every magnitude combination.',
 ['cl_pool/cl_math.rs'],['PoolMath::dx_from_l_drp','PoolMath::dy_from_l_drp','PoolMath::rp_new_from_l_dx','PoolMath::rp_new_from_l_dy'])
p('L01','Liquidity in range and at ticks always equals the sum of the positions',
 'After every deposit, withdrawal and swap, the gross liquidity at each tick is the sum of the liquidities of the positions bounded by it, its net liquidity is the sum over positions starting there minus those ending there, and a tick is active exactly when its gross liquidity is positive. The liquidity in range equals the sum of the liquidities of the positions whose range contains the current tick.',
 ['histories','inputs'],'all sequences of deposits, withdrawals and swaps by any users, on any ranges, prices, spacings, fee rates and oracle prices',
 'Tests run a few scripted histories and look at a few ticks; a swap ending on a boundary, a shared tick or a partial withdrawal needs a particular history.',
 ['cl_pool/mod.rs','cl_pool/cl_components.rs'],['Pool::deposit','Pool::withdraw','Pool::execute_swap_from_x','Pool::execute_swap_from_y','Pool::_set_position','Pool::update_tick','Pool::cross_tick'])
p('L02','Pool token accounts conserve tokens and never go negative',
 'In a swap the reserves plus fee pot of the input token grow by exactly the input reported as received and the reserves plus adjustment pot of the output token shrink by exactly the output reported as sent, with the reported fee and adjustment moved into the pots and nothing else changed. Deposits add and withdrawals remove reserves without touching the other kind of pot except to pay out the uncollected fees of that position, and no reserve or pot is ever negative.',
 ['histories','inputs'],'all sequences of deposits, withdrawals and swaps with any amounts, prices and fee rates',
 'Tests compare a few totals approximately; conservation must hold exactly in every branch, across any number of tick crossings.',
 ['cl_pool/mod.rs'],['Pool::deposit','Pool::withdraw','Pool::execute_swap_from_x','Pool::execute_swap_from_y'])
p('L03','A swap never takes more input than offered nor moves the price the wrong way',
 'A swap consumes a non-negative amount of input that never exceeds the amount offered, pays out a non-negative amount of output, charges non-negative fees, and moves the root price and the current tick only in the direction of the trade. The oracle adjustment only ever reduces the output below what the unadjusted curve pays, and without an oracle or with a zero adjustment factor there is none.',
 ['histories','inputs'],'all swap sizes, liquidity profiles, oracle prices, fee rates and adjustment factors',
 'Tests run scripted swaps; each additional tick crossing, gap or oracle position is another combination.',
 ['cl_pool/mod.rs'],['Pool::swap_within_tick_from_x','Pool::swap_within_tick_from_y','Pool::execute_swap_from_x','Pool::execute_swap_from_y'])
p('L04','Users only change their own positions and cannot overdraw them',
 'A deposit adds exactly the computed liquidity to the position of that user and range, a withdrawal removes exactly the requested liquidity from it and aborts when the position holds less, and every other position keeps its liquidity and fee checkpoint. Swaps change no position.',
 ['histories','inputs'],'all histories, users, ranges and amounts',
 'Tests use one or two users; the frame over all other positions is never looked at.',
 ['cl_pool/mod.rs'],['Pool::_set_position','Pool::deposit','Pool::withdraw'])
p('L05','Fees are credited to positions only for growth while they were open',
 'Fee growth per unit of liquidity is non-negative and never decreases, grows in a swap by the fee divided by the liquidity in range, and crossing a tick or initializing it changes no fee growth inside the range of any existing position. A position is paid its liquidity times the growth inside its range since it was opened or last touched, for every fee kind, and its checkpoint is moved to the current growth, so the same growth is never paid twice and growth from before the position existed is never paid.',
 ['histories','inputs'],'all histories of deposits, withdrawals, swaps and tick crossings',
 'Tests check a few fee totals; who is entitled to which growth depends on the whole history of crossings.',
 ['cl_pool/mod.rs','cl_pool/cl_components.rs'],['Pool::fee_below_above','Pool::fee_rng','Pool::_set_position','Pool::cross_tick','Pool::initialize_tick'])
p('L06','The fee pots always cover the fees owed to the positions',
 'At every moment of every history of deposits, withdrawals and swaps, for the swap fees and the oracle adjustments of each token, the pot holds at least the sum over all positions of their liquidity times the growth inside their range since their checkpoint. The fees of a position can therefore always be paid, whatever the other positions collect before it.',
 ['histories','inputs'],'all histories of deposits, withdrawals, swaps and tick crossings by any number of users',
 'Tests never add up what all positions could collect; rounding, crossings and the order of collection decide whether the last one is paid.',
 ['cl_pool/mod.rs'],['Pool::execute_swap_from_x','Pool::execute_swap_from_y','Pool::_set_position','Pool::deposit','Pool::withdraw'])
p('L07','Every swap, deposit and withdrawal of a pool ends',
 'From every pool that deposits, withdrawals and swaps can reach, every deposit, withdrawal and swap with any arguments comes to an end: it completes or aborts after finitely many steps. Each round of a swap either crosses the next initialized tick in the direction of the trade, which it never meets again, or uses up all that was left to swap.',
 ['inputs','histories'],'all reachable pools, all amounts, prices and oracle prices, all arrangements of initialized ticks',
 'A test that runs shows that one swap ends; that none goes round in circles at a tick boundary, in a gap without liquidity or on a remainder of one unit is about all pools and amounts.',
 ['cl_pool/mod.rs'],['Pool::execute_swap_from_x','Pool::execute_swap_from_y','Pool::cross_tick','Pool::try_get_in_range','Pool::get_left_limit_of_swap_within','Pool::get_right_limit_of_swap_within'])
p('C01','The tick bitmap is a set of ticks',
 'Activating a tick makes that tick active, unsetting it makes it inactive, and neither changes whether any other tick is active; both can be repeated without further effect. Reading changes nothing, and a tick outside the bitmap aborts instead of touching another tick.',
 ['inputs','histories'],'all bitmaps and all pairs of ticks',
 'Tests set five ticks; the frame over the other 79,999 bits and all byte and bit positions is not looked at.',
 ['state/tick_bitmap.rs'],['PoolTickBitmap::activate_tick','PoolTickBitmap::unset_tick','PoolTickBitmap::tick_is_active'])
p('C02','Next-tick search finds the nearest active tick',
 'Searching left returns the greatest active tick strictly below the given tick and searching right returns the least active tick strictly above it, or nothing when there is none. The search terminates without aborting for every tick of the bitmap and does not change the bitmap.',
 ['inputs'],'all bitmaps, all ticks of the bitmap and both directions',
 'The assertions of the existing test of the search are commented out; nearness quantifies over every bit in between.',
 ['state/tick_bitmap.rs'],['PoolTickBitmap::get_next_tick','byte_get_next_tick'])
p('C03','On-chain deposits debit at least the value and at most the offer',
 'A successful on-chain deposit transfers from the user no more of either token than the amounts offered and no less than what the liquidity credited is worth at the current tick less the fees due, rounded up to whole tokens, and mints the credited liquidity rounded down to whole LP tokens. Transfers go from the accounts of the user to the vaults of the pool under the authority of the user.',
 ['inputs','histories'],'all ticks, amounts and account contents that pass account validation and whose fees due do not exceed the value',
 'No test executes the on-chain handler; rounding at one smallest unit shows only for particular amounts.',
 ['instructions/deposit.rs'],['deposit::handle'])
p('C04','On-chain withdrawals pay at most the value of the liquidity burnt',
 'A successful on-chain withdrawal burns exactly the LP tokens requested from the account of the user and transfers from the vaults to the user no more of each token than the burnt liquidity is worth at the current tick plus the fees due, rounded down to whole tokens. A withdrawal of more liquidity than the position, its ticks or the pool hold fails.',
 ['inputs','histories'],'all ticks, amounts and account contents that pass account validation',
 'No test executes the on-chain handler.',
 ['instructions/withdraw.rs'],['withdraw::handle'])
p('C05','On-chain deposits and withdrawals keep the liquidity books',
 'A successful on-chain deposit or withdrawal changes the liquidity of the position and the gross liquidity of its lower and upper tick by exactly the liquidity added or removed, the net liquidity of the lower tick by plus and of the upper tick by minus that amount, and the global liquidity by that amount exactly when the current tick is at or above the lower and below the upper tick. No other liquidity, tick or price field changes, and no stored liquidity ever becomes negative.',
 ['inputs','histories'],'all ticks, amounts and account contents that pass account validation',
 'No test executes the on-chain handlers or their bookkeeping helpers.',
 ['instructions/manage_position.rs','instructions/manage_tick.rs','instructions/deposit.rs','instructions/withdraw.rs'],['update_position','update_tick'])
p('C06','On-chain fee growth inside a range follows the outside-growth rule',
 'The fee growth credited for a range on chain is, for each token and fee kind, the global growth minus the growth below the lower tick and above the upper tick, where growth on the near side of a tick is its stored outside growth and growth on the far side is the global growth minus it. Each of the four growths is computed from the fields of its own token and kind, rescaled to the requested scale.',
 ['inputs'],'all ticks, global and tick fee states whose growth inside the range is not negative',
 'No test executes the on-chain fee computation.',
 ['instructions/manage_fee.rs'],['fee_earned_below_above','fee_earned_within_range','compute_latest_fee'])
p('C07','New on-chain pools, ticks and positions start empty and consistent',
 'Initializing a pool records the given authority, mints and vaults and sets the root price to the price of the given tick, the current tick to that tick, and liquidity and fees to zero; initializing a tick or a position records its tick numbers with zero liquidity and zero fees. All decimal scales are the configured ones.',
 ['inputs'],'all accounts, ticks and ranges',
 'No test executes the on-chain initialization.',
 ['instructions/initialize_pool.rs','instructions/manage_tick.rs','instructions/manage_position.rs'],['initialize_pool::handle','initialize_tick','create_position'])
p('C08','On-chain handlers accept only the accounts of the right pool, user and range',
 'Depositing and withdrawing only succeed with a position account of that pool, signer and range, tick accounts of that pool for exactly the lower, upper and current tick, a lower tick below the upper tick, a current tick equal to the current tick of the pool, token accounts with the mints of the pool owned by the user, and the vaults, tick bitmap and LP mint of the pool. Both the user and the payer must have signed.',
 ['inputs'],'all combinations of accounts passed by a caller, including hostile ones',
 'No test calls the entry point, and a hostile combination is one among arbitrarily many.',
 ['instructions/deposit.rs','instructions/withdraw.rs'],['Deposit','Withdraw'])
p('C09','The on-chain liquidity books balance over every history of instructions',
 'After any sequence of instructions, by any users on any pools and with any accounts and arguments, the gross liquidity of every tick account is the sum of the liquidity of the positions of its pool that start or end at that tick, its net liquidity is the sum over those that start there less those that end there, and the liquidity of every pool is the sum over its positions whose range contains its current tick. Every position belongs to one pool, user and range whose two tick accounts exist.',
 ['histories','inputs'],'all sequences of instructions from the empty ledger, for all accounts and arguments, as long as no two of the seed lists used have the same address',
 'No test runs an instruction; a history that leaves the books unbalanced can be arbitrarily long and mix pools, users and ranges.',
 ['instructions/deposit.rs','instructions/withdraw.rs','instructions/manage_position.rs','instructions/manage_tick.rs','instructions/initialize_pool.rs','instructions/manage_bitmap.rs'],['update_position','update_tick','Deposit','Withdraw','CreatePosition','InitializeTick'])
p('C10','What a position is paid on chain stays covered by what it paid in, over every history',
 'After any sequence of instructions, by any users on any pools and with any accounts and arguments, the tokens of each kind paid out for a position do not exceed those taken in for it by more than one part in 10^12 of these and 3/10^12 of a token per deposit, and what is left over covers what the liquidity that the position still has is worth at the root price of the current tick, up to the rounding of the amounts. LP tokens minted for a position less those burnt for it never exceed its liquidity. No position can therefore be paid out of what others have deposited.',
 ['histories','inputs'],'all sequences of instructions from the empty ledger, for all accounts and arguments, as long as no two of the seed lists used have the same address',
 'No test runs an instruction; a gain by rounding needs particular amounts or many repetitions.',
 ['instructions/deposit.rs','instructions/withdraw.rs','instructions/manage_fee.rs','instructions/manage_position.rs','cl_pool/cl_math.rs'],['deposit::handle','withdraw::handle','compute_latest_fee'])
p('D08','Parsing a decimal denotes the number written',
 'Parsing an optionally signed decimal string with an optional fraction and exponent returns a decimal that denotes exactly the number written, or fails; it never silently drops digits or wraps a scale. Printing a decimal and parsing the result gives back the same value, scale and sign.',
 ['inputs'],'all strings and all decimals',
 'Tests parse a dozen strings; digit loss shows only for particular lengths of fraction and exponent.',
 ['decimal.rs'],['Decimal::from_str_radix','Display::fmt'])
p('D09','Natural logarithm is accurate to the table precision',
 'The natural logarithm of a positive decimal is that of the value cut to twelve digits, correct to within 1.8e-10, then cut to the scale of the argument. Every decimal of at most twelve digits from 10^-12 up to 3.4e14 has one, without an abort; a negative argument gives an error.',
 ['inputs'],'all decimals',
 'Tests check a dozen values; errors show only next to powers of two, for small values or for particular digits.',
 ['decimal.rs'],['Ln::ln','log_table','log_table_value','log2_floor'])
p('F01','The floating-point pool keeps the same books as the decimal pool',
 'After every deposit, withdrawal and swap of the floating-point pool, tick and in-range liquidity equal the sums over the positions and token accounts conserve tokens, up to the stated floating-point tolerance.',
 ['histories','inputs'],'all histories with any amounts and prices',
 'Tests run a few scripted histories.',
 ['cl_pool_float/mod.rs'],['cl_pool_float::Pool'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
