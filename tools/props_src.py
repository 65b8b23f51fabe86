#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
S = 'contracts/sumtree-orderbook/src/'
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': [S + f for f in files],
                          'state': state or [],
                          'mechanism': [{'name': a, 'where': S + b} for a, b in mech],
                          'observe_at': observe, 'hook_needed': None}})


H = ['inputs', 'histories']
TAL = {'name': 'tick values', 'meaning': 'per tick and direction: total_amount_of_liquidity, effective_total_amount_swapped, cumulative_total_value, cumulative_realized_cancels', 'where': S + 'types/tick.rs'}
ORD = {'name': 'limit orders', 'meaning': 'open orders with remaining quantity and etas, by (tick, order id)', 'where': S + 'state.rs orders()'}
SUM = {'name': 'sumtree nodes', 'meaning': 'intervals of cancelled liquidity per tick and direction', 'where': S + 'sumtree/node.rs NODES'}
BOOK = {'name': 'orderbook', 'meaning': 'denoms and best bid/ask tick pointers', 'where': S + 'state.rs ORDERBOOK'}

p('C01', 'The order book is always solvent',
  'After any sequence of accepted placements, market orders, claims and cancellations, the contract holds at least what it owes in each of its two tokens: the unfilled remainder of every open order plus the proceeds of every filled but not yet claimed part. Every payout the contract orders (to a taker, an order owner, a claimer or the fee recipient) is covered by its balance, in whatever order people leave.',
  H, 'all quantities up to 10^30, all event sequences up to the stated length, any maker fee and bounty, every departure order chosen by the history',
  'The tests replay a few hand-written amounts; a rounding error of one unit shows only for particular amounts, prices and orders of departure.',
  ['order.rs', 'tick.rs', 'tick_math.rs', 'sumtree/tree.rs'],
  [('input consumed is rounded up, output and claims are rounded down', 'order.rs run_market_order_internal, claim_order'), ('etas bookkeeping', 'tick.rs sync_tick')],
  ['contract balance per denom', 'bank messages of every entry point'], [TAL, ORD, SUM])
p('C02', 'Orders at one price are filled in order of placement, exactly as far as taken',
  'Within a tick and side, orders are filled strictly first come, first served: an order is filled only after every earlier order there is completely filled or cancelled, and a cancellation hands its place to those behind it. A claim succeeds exactly when the order has been filled since its last claim, and then pays out (owner, claimer and fee recipient together) the value of exactly that newly filled part at the order\'s own tick price, rounded down; across ticks, a market order consumes better prices before worse ones.',
  H, 'all quantities up to 10^30 and all sequences of placements, market orders, claims and cancellations up to the stated length',
  'The FIFO order is implicit in cumulative counters (etas, cumulative totals, a tree of cancellations); only specific interleavings of fills, cancels and claims expose a wrong counter, and tests sample a handful.',
  ['tick.rs', 'sumtree/tree.rs', 'sumtree/node.rs', 'order.rs'],
  [('effective_total_amount_swapped vs order etas', 'order.rs claim_order'), ('sync_tick with realized cancels', 'tick.rs'), ('get_prefix_sum', 'sumtree/tree.rs')],
  ['claim payouts', 'OrdersByTick query'], [TAL, ORD, SUM])
p('C03', 'A market order is matched at resting prices, exactly or not at all',
  'An exact-input swap consumes resting liquidity from the best price on, at each tick paying out at most that tick\'s price for the input used there, rounded in favour of the makers; it either pays the taker exactly that output, at least the requested minimum and more than zero, and returns all input that bought nothing (a remainder too small to buy one unit at the next live tick stays in the book), or is rejected with no effect. It is rejected if and only if the book cannot absorb the input, the output is below the minimum, or the output would be zero, at every price on the grid.',
  H, 'all inputs and resting quantities up to 10^30 over several price levels including the extremes of the grid',
  'Tests use a few prices near 1; rounding and fixed-point truncation go wrong only at particular amounts or at extreme prices.',
  ['order.rs', 'tick_math.rs', 'sudo.rs'],
  [('tick walk with rounding', 'order.rs run_market_order_internal'), ('amount_to_value / divide_by_price / multiply_by_price', 'tick_math.rs'), ('minimum output check', 'sudo.rs')],
  ['bank messages of swaps', 'SwapExactAmountInResponseData'], [TAL, BOOK])
p('C04', 'Open orders are exactly what was placed and not yet claimed or cancelled',
  'An order is listed from its placement until it is fully claimed or cancelled, and never again; ids are unique and increase with every placement. While listed it shows its owner, tick, direction, bounty and placed quantity as placed, and as remaining quantity what was placed minus what was claimed; a fully claimed or cancelled order cannot be claimed or cancelled again, and no rejected operation changes any of this.',
  H, 'all quantities and all event sequences up to the stated length, including attempts that are rejected and attempts by strangers',
  'Tests check single transitions; the life cycle has to survive every interleaving of partial claims, fills and cancellations.',
  ['order.rs', 'state.rs', 'query.rs'],
  [('orders() indexed map updates', 'order.rs place_limit, claim_order, cancel_limit'), ('new_order_id', 'state.rs')],
  ['OrdersByTick and OrdersByOwner queries'], [ORD])
p('C05', 'Claim proceeds go to the right people in the right amounts',
  'When anyone claims an order, the proceeds are split as: claimer\'s bounty = bounty rate times proceeds rounded down (none if the order has no bounty), maker fee = fee rate times proceeds rounded down to the configured recipient (none while the fee is zero), and all the rest to the order\'s owner. Nobody else is paid, no part is lost or created, zero amounts are not sent, and a claim by a third party never diverts more than the bounty.',
  ['inputs', 'configurations'], 'all proceeds up to 10^30, all bounty rates up to 1% and fee rates up to 5%, owner, claimer and recipient equal or different',
  'Tests fix round rates and amounts; rounding remainders and coinciding roles need every combination.',
  ['order.rs'], [('bounty, fee and payout messages', 'order.rs claim_limit, claim_order')],
  ['bank messages of claims'], [ORD])
p('C06', 'Cancelling refunds exactly the unfilled part, to the owner, once',
  'An order can be cancelled if and only if it is open, the sender is its owner and no filled part of it awaits claiming. The owner then receives exactly the placed quantity minus what was filled, in the denomination placed, nobody else is paid, and the order is gone.',
  H, 'all quantities and event sequences up to the stated length, cancellations by owners and strangers at every point',
  'Whether a partly filled, partly claimed order may be cancelled and for how much depends on counters built up by other people\'s fills and cancellations.',
  ['order.rs', 'tick.rs'], [('cancel_limit', 'order.rs'), ('sync_tick before the decision', 'tick.rs')],
  ['bank messages of cancellations'], [ORD, TAL])
p('C07', 'Many cancellations in any order keep every other order\'s place',
  'However many orders of a tick are cancelled, and in whatever order the cancellations and market orders come, every remaining order\'s fill is what a first-come-first-served queue of the remaining quantities gives: no fill is lost, duplicated or handed to the wrong order.',
  H, 'every cancellation order of up to six or more orders at one tick, with symbolic quantities and market orders in between',
  'The tree of cancelled intervals rebalances differently for each cancellation order; tests pin a few shapes with fixed sizes.',
  ['sumtree/tree.rs', 'sumtree/node.rs', 'tick.rs'],
  [('insert and rebalance', 'sumtree/node.rs'), ('get_prefix_sum with prev_sum', 'sumtree/tree.rs'), ('unrealized cancels', 'tick.rs sync_tick')],
  ['claim payouts', 'TickUnrealizedCancelsById query'], [SUM, TAL])
p('C08', 'Ticks map to prices on a strictly increasing geometric-additive grid',
  'Every tick from the minimum to the maximum has a price: 9,000,000 ticks per factor of ten, evenly spaced within it, price 1 at tick 0, price 10^-12 at the minimum tick and 10^20-scale at the maximum. The price is exact (no rounding), strictly increases with the tick, and ticks outside the range have no price and cannot be ordered at.',
  ['inputs'], 'all 290 million ticks, each treated as a solver variable per decade',
  'Tests look at about a dozen ticks.',
  ['tick_math.rs', 'constants.rs'], [('tick_to_price, pow_ten', 'tick_math.rs')], ['prices implied by claims and swaps'], [])
p('C09', 'Amount conversions are exact up to one unit, rounded the way they say',
  'Converting an amount at a price gives the mathematically exact value rounded down or up to a whole unit as requested, for every amount and every price on the grid, or an error if the result does not fit; it never silently wraps or truncates. Converting there and back never creates value.',
  ['inputs'], 'all amounts up to 2^128-1 and prices of the whole grid (per stated price sets), both directions and both roundings',
  'Tests sample a few products; fixed-point truncation errors appear only at extreme prices or amounts.',
  ['tick_math.rs'], [('multiply_by_price, divide_by_price, amount_to_value', 'tick_math.rs')], ['return values, and the payouts derived from them'], [])
p('C10', 'Only the current admin and moderator can use their powers',
  'Setting the maker fee, the fee recipient, the moderator and starting or removing an admin transfer succeed only for the current admin; switching the circuit breaker only for the admin or the moderator; an offered admin or moderator role changes hands only when the offered account itself accepts, and a rejected or renounced role cannot be used. Every other sender is refused without effect, and a successful change takes effect exactly as requested and touches nothing else.',
  ['histories', 'configurations'], 'all sequences of administrative messages up to the stated length by every relevant sender',
  'Tests run each message once from a fresh state; the danger is in sequences (offer, revoke, accept, renounce).',
  ['auth.rs', 'contract.rs', 'sudo.rs'], [('ensure_is_admin, ensure_is_admin_or_moderator, offers', 'auth.rs')],
  ['Auth messages', 'Admin, AdminOffer, Moderator, ModeratorOffer, IsActive, MakerFee queries'],
  [{'name': 'roles', 'meaning': 'admin, admin offer, moderator, moderator offer, active switch', 'where': S + 'auth.rs, state.rs'}])
p('C11', 'The circuit breaker stops trading and nothing else',
  'While the switch is off, placements, cancellations, claims, batch claims and swaps are all refused without effect, while queries and every administrative message, including those sent by governance, keep working, so that the book can be switched on again. Switching it on restores normal operation with all balances and orders as they were.',
  ['histories', 'configurations'], 'every entry point in every state of the switch, in short histories with symbolic amounts',
  'Tests try single messages in the paused state and leave governance messages out.',
  ['contract.rs', 'sudo.rs', 'state.rs'], [('ensure_is_active', 'auth.rs'), ('dispatch', 'contract.rs execute, sudo.rs sudo')],
  ['all entry points'], [])
p('C12', 'Only well-formed limit orders are accepted, and nothing else is lost',
  'A limit order is accepted exactly when its tick is on the grid, its quantity is positive, its bounty if given is at most 1%, and the attached funds are exactly the stated quantity of the side\'s denomination. A refused order leaves no trace; an accepted one adds exactly its quantity to its tick.',
  ['inputs', 'configurations'], 'all quantities and attached amounts, bounty rates and the boundary ticks, with missing, surplus and foreign coins',
  'Tests try one instance of each mistake; boundaries such as off-by-one quantities or rates need every value.',
  ['order.rs'], [('place_limit validation', 'order.rs')], ['PlaceLimit'], [ORD])
p('C13', 'A quote is exactly what an immediate swap pays',
  'If the out-given-in query answers a positive output for an input, an immediate swap of that input (without a minimum above it) succeeds with exactly that output; if it fails or answers zero, the swap is refused. Quoting changes nothing.',
  H, 'all inputs and resting quantities, books of several ticks in states reached by short histories',
  'Tests compare the two in a few fixed books.',
  ['query.rs', 'order.rs', 'sudo.rs'], [('calc_out_amount_given_in', 'query.rs'), ('run_market_order_internal on a shared path', 'order.rs')],
  ['CalcOutAmountGivenIn', 'SwapExactAmountIn'], [BOOK, TAL])
p('C14', 'Reported liquidity is exactly the unfilled amount of open orders',
  'At all times each tick\'s reported liquidity per side equals the unfilled amount of its open orders, and the reported pool liquidity per denomination is the sum over all ticks.',
  H, 'all quantities and event sequences up to the stated length',
  'Every operation updates two totals by hand; tests look after single operations.',
  ['order.rs', 'state.rs', 'query.rs'], [('increment/decrement of directional liquidity and tick totals', 'order.rs')],
  ['AllTicks, TicksById, GetTotalPoolLiquidity queries'], [TAL])
p('C15', 'The best-price pointers never hide liquidity',
  'After any history, no open bid lies above the best-bid pointer and no open ask lies below the best-ask pointer, so every resting unit can be reached by a market order; a swap starts from the best live price even after pointers have moved in both directions.',
  H, 'all quantities, placements at several ticks on both sides and market orders in every order up to the stated length',
  'Pointers are moved by placements, by swaps and at the grid\'s edges in different ways; tests check final pointers of fixed scenarios.',
  ['order.rs'], [('next_bid_tick / next_ask_tick updates', 'order.rs place_limit, run_market_order')], ['OrderbookState query', 'swaps'], [BOOK])
p('C16', 'A batch claim is the same as claiming one by one',
  'A batch claim of up to 100 orders pays, records and reports exactly what individual claims in the same order would; an entry that cannot be claimed has no effect on orders, balances, fees or liquidity and does not spoil the others, and larger batches are refused.',
  H, 'batches over all combinations of claimable, unfilled, unknown and repeated orders, with symbolic amounts',
  'Tests use one or two fixed batches.',
  ['order.rs', 'contract.rs'], [('batch_claim_limits', 'order.rs')], ['BatchClaim'], [ORD])
p('C17', 'A swap to a tick never trades past that tick',
  'A bounded swap consumes only liquidity at prices no worse than the target tick\'s, pays for it exactly as an unbounded swap would, and returns all input it did not use.',
  ['inputs', 'histories'], 'all inputs, resting quantities and targets at, between and beyond the book\'s ticks',
  'Tests use a handful of targets.',
  ['order.rs', 'sudo.rs'], [('tick bound of run_market_order', 'order.rs'), ('SwapToTick', 'sudo.rs')], ['SwapToTick'], [BOOK, TAL])
p('C18', 'Listing queries are complete and page without gaps or repeats',
  'Every listing (orders by tick, orders by owner, all ticks, ticks by id) returns exactly the open orders or used ticks in the requested range (bounds inclusive, at most the requested number) in increasing order with their true contents, and paging through it with any page size visits each entry exactly once.',
  ['inputs', 'histories'], 'every page size and range over books of several orders, ticks and owners, after claims and cancellations',
  'Tests page through fixed lists with one page size.',
  ['query.rs', 'state.rs'], [('range bounds and limits', 'state.rs get_orders_by_tick, get_orders_by_owner; query.rs all_ticks')],
  ['OrdersByTick, OrdersByOwner, AllTicks, TicksById queries'], [ORD])
p('C19', 'The pending-cancellation query predicts the next synchronisation',
  'The unrealized-cancels query of a tick reports exactly the cancelled amount that lies within what has been reached by fills but has not been accounted for yet, so adding it to the tick\'s filled counter gives the true fill position of the queue.',
  H, 'all quantities, cancellations and market orders in any order up to the stated length',
  'The query duplicates the synchronisation logic; tests check it in two fixed states.',
  ['query.rs', 'tick.rs', 'sumtree/tree.rs'], [('ticks_unrealized_cancels_by_id', 'query.rs'), ('sync_tick', 'tick.rs')], ['TickUnrealizedCancelsById query'], [SUM, TAL])
p('C20', 'Nobody\'s money gets stuck',
  'As long as the book is switched on, every filled part can be claimed at once, every open order without unclaimed fills can be cancelled by its owner, every valid order is accepted and every swap the resting liquidity can serve goes through: no arithmetic error, abort or internal inconsistency blocks them in any reachable state.',
  H, 'all quantities up to 10^30 and event sequences up to the stated length, at ordinary and extreme prices, ending with everybody leaving',
  'An arithmetic error is reached only by particular amounts and histories.',
  ['order.rs', 'tick.rs', 'tick_math.rs', 'sumtree/tree.rs'], [('checked arithmetic throughout', 'order.rs, tick.rs')], ['all user entry points'], [TAL, ORD, SUM])
p('C21', 'A payout that cannot be delivered undoes the whole operation',
  'If any payment ordered by a swap, claim, batch claim or cancellation fails, the whole transaction is rejected and neither the book nor any balance changes, so the claim can be repeated later.',
  ['fault_sequences', 'histories'], 'every payment of every operation failing, alone or together, with symbolic amounts',
  'Unit tests never execute the payment messages, so they cannot see what a failure does.',
  ['order.rs', 'contract.rs', 'sudo.rs'], [('reply handler', 'contract.rs reply'), ('SubMsg reply_on_error', 'order.rs, sudo.rs')], ['transaction outcome with a recipient the bank refuses'], [])
p('C22', 'A book is created only for two different existing tokens',
  'Instantiation succeeds exactly when the base and quote denominations differ and both have non-zero supply; the new book is empty, switched on, has no maker fee, best pointers at the grid\'s edges, and the configured admin and moderator.',
  ['configurations', 'inputs'], 'all combinations of denominations, with symbolic supplies',
  'Tests create one or two books.',
  ['contract.rs', 'orderbook.rs'], [('create_orderbook', 'orderbook.rs'), ('instantiate', 'contract.rs')], ['instantiate', 'Denoms, OrderbookState, MakerFee, IsActive, Admin, Moderator queries'], [BOOK])
p('C23', 'The maker fee is capped and applied as set',
  'The maker fee can never be set above 5%; a rejected setting leaves the fee as it was, an accepted one is reported and charged exactly from then on, on every claim, to the recipient last set.',
  ['inputs', 'histories'], 'all fee rates and short histories of changes of fee and recipient with claims in between',
  'Tests use two rates.',
  ['contract.rs', 'auth.rs', 'order.rs', 'state.rs'], [('MAX_MAKER_FEE_PERCENTAGE check', 'auth.rs set_maker_fee')], ['SetMakerFee, SetMakerFeeRecipient, MakerFee query, claims'], [])
p('C24', 'Ticks, sides and orders do not interfere',
  'What happens at one tick or on one side of the book never changes the fills, claimable amounts, liquidity or records of orders at another tick or on the other side.',
  H, 'bids and asks over two ticks, with symbolic quantities and every event sequence up to the stated length',
  'State is keyed by tick and direction in several maps; tests mostly use one tick and one side.',
  ['tick.rs', 'state.rs', 'sumtree/node.rs', 'order.rs'], [('storage keys', 'state.rs, sumtree/node.rs'), ('TickValues per direction', 'types/tick.rs')], ['all user entry points and queries'], [TAL, ORD, SUM])
p('C25', 'Events tell the truth',
  'The events of a placement, cancellation, claim and swap report the order, tick, direction, owner, sender and denominations involved and the exact amounts placed, returned, paid and remaining, for every outcome.',
  H, 'all quantities and event sequences up to the stated length, with bounties and strangers',
  'Tests compare attributes in a few fixed scenarios; indexers rely on them in all.',
  ['order.rs', 'sudo.rs'], [('attributes', 'order.rs, sudo.rs')], ['transaction attributes and events'], [])
p('C26', 'The cancellation tree stays a balanced interval tree with true sums',
  'After any sequence of cancellations the tree of cancelled intervals of a tick holds each cancelled interval exactly once in position order, every inner node\'s range and total are those of its children, parent links agree, and sibling heights differ by at most one.',
  H, 'every cancellation order of up to six or more orders with symbolic quantities',
  'Rebalancing depends on the order of insertions; tests pin a few.',
  ['sumtree/node.rs', 'sumtree/tree.rs'], [('insert, rebalance, rotate', 'sumtree/node.rs')], ['stored nodes'], [SUM])
p('C27', 'The spot price is the best price in the trading direction',
  'The spot-price query for a pair of the book\'s denominations returns the price of the best-price pointer for that direction and fails for any other pair. The pointer follows every placement that improves the best price and every swap, which leaves it at the last tick it traded at (after cancellations it may name a tick that has become empty).',
  ['histories', 'inputs'], 'placements at several ticks and market orders with symbolic amounts, both directions',
  'Tests use one or two fixed books.',
  ['query.rs', 'order.rs'], [('spot_price', 'query.rs')], ['SpotPrice query'], [BOOK])
p('C28', 'A migration of the contract changes nothing users have',
  'A migration (the migrate entry point) of an intact book is accepted and pays nobody. Every open order, fill, cancellation, total and best-price pointer, the switch, the roles and their offers, the maker fee and its recipient are afterwards as before: every query answers the same, and what each user can then claim, cancel, place or trade, and for how much, is the same as without the migration.',
  ['histories', 'inputs'], 'orders, fills and cancellations of symbolic amounts, any of the settings changed, then the migration, then more events',
  'No test runs the migrate entry point.',
  ['contract.rs', 'state.rs'], [('migrate', 'contract.rs')], ['migrate', 'every query', 'claims, cancellations, swaps'], [BOOK])
p('C29', 'The work of an operation does not grow with the number of orders',
  'Placing an order, filling orders by a market order and claiming take a number of storage accesses that does not depend on how many orders rest at the price level; a market order visits levels from the best-price pointer to where it ends, not those beyond or those that earlier market orders have emptied; and after many cancellations at a level, cancelling and claiming there grow with the logarithm of their number at most. So no one can make a price level too expensive to trade with by filling it with orders.',
  ['histories', 'inputs'], 'few against many orders, cancellations and levels, with a market order of any amount',
  'Tests look at results, not at the work; a linear walk passes all of them.',
  ['order.rs', 'tick.rs', 'sumtree/tree.rs', 'sumtree/node.rs'], [('run_market_order_internal', 'order.rs'), ('prefix_sum_walk', 'sumtree/tree.rs'), ('rebalance', 'sumtree/node.rs')], ['storage accesses'], [BOOK, SUM])
p('C30', 'Money sent along with a message is never swallowed',
  'A placement keeps exactly the funds it books as the order. Every other message of the book - cancellation, claim, batch claim, and every administrative message, on a running or a stopped book, whoever sends it - is refused without effect when money of any denomination and amount is attached to it, and works without. So nothing ever enters the contract that no order accounts for and nobody could get out again.',
  ['inputs', 'histories'], 'every message, any attached amount from 1 to 2^128-1 of either denomination, a third one, or both, after placements and a market order of any amount',
  'Tests attach money to one or two of the messages, with one amount.',
  ['contract.rs', 'order.rs', 'auth.rs'], [('execute', 'contract.rs'), ('dispatch', 'auth.rs'), ('cancel_limit', 'order.rs'), ('claim_limit', 'order.rs'), ('batch_claim_limits', 'order.rs')], ['outcome of the message', 'balances', 'every stored record'], [BOOK])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
