#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": mechanism}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ simulation
prop("C01", "Every message reaches its recipient exactly once and never early",
 "Every message that an agent sends to an existing agent is handed to that recipient exactly once, in the first processed instant that is not before the message's delivery time, whatever the delivery time (same instant, later, or already overdue) and whatever else is pending for the recipient. "
 "It is never lost, duplicated, delivered early, or delivered to another agent, and messages for the future stay queued while the recipient is active for other reasons. "
 "A message addressed to an agent that does not exist is reported as an error rather than silently dropped. (An agent that leaves the simulation takes messages it has not sent yet, and messages pending for it, along.)",
 ["histories", "programs"],
 "all programs of a few agents in which each activation sends up to two messages with any recipient and any delivery offset and asks for any wake-up time",
 "The delivery code is not exercised by any passing test (test_environment does not build); even there only empty agents are stepped. Loss depends on combinations of several pending messages and wake-ups.",
 ["esl/simulation/model.cpp", "esl/computation/environment.cpp", "esl/interaction/communicator.cpp"],
 "model::step activates due agents, purges handled messages from the inbox and keeps future ones; environment::send_messages moves outboxes to inboxes and pulls wake-up times forward",
 [("wake_up_times", "next activation per agent"), ("inbox/outbox", "pending messages by delivery time")])

prop("C02", "Agents act exactly when due, and simulated time advances event by event",
 "In each round of a step precisely the agents whose requested wake-up time (or earliest pending message) has been reached act, once each; rounds repeat until nobody is due at the current time, and the step then returns the earliest time at which any agent is due, or the end of the step or of the simulation if that is sooner. "
 "Agents that have not acted before act in the first round they are present for, agents that were removed no longer act and no longer influence time, and a request to wake in the past is an error. "
 "Consequently simulated time never goes backwards and never skips a due agent.",
 ["histories", "programs"],
 "all scripts of up to 3 agents giving any relative wake-up (now, +1, +2, beyond the end, past) per activation, with messages, creation and removal of agents",
 "No passing test runs a step; the unbuilt test_environment only has agents with one constant delay.",
 ["esl/simulation/model.cpp", "esl/simulation/agent_collection.cpp", "esl/computation/environment.cpp"],
 "do/while over rounds in model::step with determine_next_event over the wake-up table",
 [("wake_up_times", "requested activation time per agent"), ("rounds", "rounds executed")])

prop("C03", "Simulation results do not depend on thread count or thread interleaving",
 "Running a model with any number of threads, and under any interleaving of those threads, activates the same agents in the same rounds, delivers the same messages with the same random seeds, and returns the same next-event times as running it on one thread. "
 "No shared state of the simulation is accessed by two threads without synchronisation. "
 "Repeating a run with the same parameters and sample index reproduces it exactly, while a different sample index, agent, time or round gives a different random seed.",
 ["schedules", "configurations"],
 "all interleavings up to a preemption bound of 2-3 worker threads over models of 2-4 interacting agents; thread counts 1..8, more and fewer agents than threads",
 "test_model_parallel only queries hardware_concurrency; the environment test's own comment says its parallel check may miss failures.",
 ["esl/simulation/model.cpp", "esl/quantity.hpp"],
 "acting agents are partitioned over std::threads; wake-up times and the first event are updated under a mutex",
 [("mutex_first_event_", "guards wake_up_times and first_event_")])

prop("C04", "Message handlers run by priority, once per message, in a reproducible order",
 "When an agent processes its messages, exactly those whose delivery time has been reached are handled, in decreasing order of the highest handler priority of their type, and for each message every handler registered for its type runs exactly once in decreasing order of handler priority. "
 "Among messages of equal priority, in-order scheduling follows delivery order (by delivery time, then arrival) and random scheduling an order that is a permutation determined by the random seed alone. "
 "The reported next event is the earliest of the times returned by the handlers and of the deliveries still pending, and handlers can only be added while an agent is being constructed.",
 ["inputs", "histories", "configurations"],
 "all small handler tables (types x priorities incl. extremes) and all inbox contents of up to 5 messages over types and times, both scheduling modes, several seeds",
 "test_communicator uses one handler table, one inbox, and identical messages, so equal-priority order and future messages are not observable in it.",
 ["esl/interaction/communicator.hpp", "esl/interaction/communicator.cpp", "esl/simulation/agent_collection.hpp"],
 "callbacks_ multimap by priority; process_messages groups the due part of the inbox by highest priority; shuffle with a seeded engine")

prop("C05", "A run initialises, steps to its end time and terminates exactly once",
 "Running a simulation initialises the model once before anything else, then takes steps at strictly increasing times until the end time is reached, then terminates it once; the reported times of all steps stay within the simulated interval, and the model's current time is that of the step. "
 "Every agent created before or during the run is accounted for as activated exactly once, every removed agent as deactivated exactly once, and processing these lists always finishes and leaves nothing pending. "
 "Model parameters such as start, end, sample, verbosity and number of threads are those that were requested.",
 ["histories", "configurations"],
 "all creation/removal scripts of up to 4 agents across initialisation and steps, all start/end pairs in a small range, all parameter combinations",
 "No passing test runs a simulation (environment.cpp is not even compiled by the test build).",
 ["esl/computation/environment.cpp", "esl/computation/environment.hpp", "esl/simulation/agent_collection.cpp", "esl/simulation/parameter/parametrization.hpp"],
 "environment::run/step, activate/deactivate queues, parametrization table")

# ---------------------------------------------------------------- concurrency
prop("C06", "A thread pool runs every submitted task exactly once and always shuts down",
 "Every task or work item submitted to a thread pool is executed exactly once, on some worker, with the arguments it was given, and a task's future becomes ready with its result or its exception. "
 "Destroying the pool waits until all submitted work has finished and then returns: no work is lost, none runs twice, and neither submission, execution nor shutdown can deadlock or race. "
 "This holds for every pool size (a requested size of zero selects at least one worker) and every interleaving.",
 ["schedules", "configurations"],
 "all interleavings up to a preemption bound of one or two submitters, 1-3 workers and 1-4 items, including shutdown while items are queued",
 "The thread pool has no test at all.",
 ["esl/computation/thread_pool.hpp", "esl/computation/blocking_queue.hpp"],
 "one queue per worker, try_push round robin, work stealing by try_pop, close-and-join on destruction",
 [("queues_", "per-worker task queues"), ("index_", "round robin position")])

prop("C07", "The blocking queue is a linearizable FIFO that never loses items or wake-ups",
 "For any number of concurrent producers and consumers every item pushed is popped at most once, items come out in the order in which they were pushed, and nothing is returned that was not pushed; the try variants may fail only when the queue is empty or momentarily in use, without side effects. "
 "A consumer that waits is released as soon as an item is available for it or the queue is closed; after closing, remaining items can still be taken and only then does a pop report that the queue is exhausted. "
 "No interleaving deadlocks, and no state is accessed without synchronisation.",
 ["schedules"],
 "all interleavings up to a preemption bound of 2-4 threads issuing 1-3 operations each (push, pop, try_push, try_pop, close, size, empty)",
 "The queue has no test; lost wake-ups and double pops need particular interleavings.",
 ["esl/computation/blocking_queue.hpp"],
 "std::queue guarded by a mutex with a condition variable and a closed flag")

prop("C08", "The block pool hands out unique, increasing indices, valid until erased",
 "Inserting into a pool that is not full succeeds and returns an index strictly greater than all indices returned before, under which exactly that element can be read until it is erased; inserting into a full pool is an error that changes nothing. "
 "Erasing a live index removes exactly that element and frees its place, and erasing any other index (never issued, stale, or already erased) reports zero and changes nothing. "
 "The size always equals the number of live elements and never exceeds the capacity.",
 ["histories"],
 "all operation sequences up to a depth over pools of capacity 1-4, erasing any live, stale or never-issued index",
 "The single test follows one fixed sequence, and fails at the pinned commit.",
 ["esl/computation/block_pool.hpp"],
 "intrusive free list threaded through blocks, index = round * capacity + offset")

# ---------------------------------------------------------------------- markets
prop("C09", "The static order book matches by price-time priority and conserves quantity",
 "For every sequence of orders and cancellations, the static order book produces exactly the executions of a price-time priority limit order book: an incoming order trades against the best opposite prices first and the oldest order first within a price, at the resting order's price, each trade reported once to each side with equal quantity. "
 "The unfilled remainder of a good-until-cancelled order rests under a fresh identifier, immediate-or-cancel remainders are cancelled, fill-or-kill orders execute completely or not at all, and invalid orders (zero quantity, price outside the accepted range, wrong lot) are reported invalid and change nothing. "
 "At all times the best bid and ask are the best resting prices of each side (absent when there are none), the bid is below the ask, the listed orders are exactly the resting ones, and cancelling a resting order removes exactly it while cancelling anything else has no effect.",
 ["histories", "inputs"],
 "all sequences of inserts (side x price level x quantity x lifetime) and cancels up to a depth, on books of several widths including prices at both limits, and small capacities",
 "test_order_book does not compile; test_exchange inserts 1000 random orders and asserts nothing.",
 ["esl/economics/markets/order_book/static_order_book.hpp", "esl/computation/block_pool.hpp", "esl/economics/markets/order_book/execution_report.hpp"],
 "array of price levels with intrusive order queues in a block pool; best_bid_/best_ask_ level pointers",
 [("limits_", "one entry per tick"), ("best_bid_/best_ask_", "best levels"), ("pool_", "resting orders")])

prop("C10", "The tree order book matches by price-time priority and conserves quantity",
 "For every sequence of orders and cancellations, the dynamically allocated order book produces exactly the executions of a price-time priority limit order book: best opposite price first, oldest order first within a price, at the resting order's price, each trade reported once to each side with equal quantity. "
 "The unfilled remainder of a good-until-cancelled order rests under a fresh identifier, immediate-or-cancel remainders are cancelled, and fill-or-kill orders execute completely or not at all. "
 "At all times the best bid and ask are the best resting prices of each side (absent when there are none), the bid is below the ask, the listed orders are exactly the resting ones, and cancelling a resting order removes exactly it while cancelling anything else has no effect.",
 ["histories", "inputs"],
 "all sequences of inserts (side x price level x quantity x lifetime) and cancels up to a depth",
 "test_order_book does not compile, and covers only the static book.",
 ["esl/economics/markets/order_book/binary_tree_order_book.hpp"],
 "two price-ordered multimaps and an identifier index",
 [("orders_bid/orders_ask", "resting orders by price"), ("limit_orders_", "identifier to price")])

prop("C11", "Orders and cancellations affect only the book of their own ticker",
 "A matching engine keeps one independent book per ticker: an order trades only with, and a cancellation only removes, orders of the same ticker, and the state of each book is the same as if the operations for its ticker had been sent to a single stand-alone book. "
 "Tickers are distinguished by both the security and the denomination, and an operation for a ticker without a book creates an empty book (orders) or has no effect (cancellations). "
 "Two tickers compare equal, order and hash consistently with their two components.",
 ["histories", "inputs"],
 "all sequences of orders and cancels over 3-4 tickers that share security or denomination, up to a depth; all pairs and triples of a set of tickers",
 "The matching engine has no test.",
 ["esl/economics/markets/order_book/matching_engine.hpp", "esl/economics/markets/ticker.hpp"],
 "flat_map from ticker to book")

prop("C12", "The exchange reports order events to their owners and keeps participants apart",
 "For every order and cancellation message sent to an exchange, each execution report the matching book produces is sent exactly once, while the message is handled, to the owner of the order it concerns, with the book's contents unchanged by the reporting, and an order for a ticker without a book is an error. "
 "Participants that log on have a position recorded per traded ticker with the supply they announced, independently of the others, until they log off. "
 "Market data is sent to those who subscribed to the ticker, while they are subscribed, once for every order that trades or changes the best prices; it shows the current best bid and ask and lists each trade of that order once, and a snapshot request is answered once. Cancelling a subscription that does not exist has no effect.",
 ["histories"],
 "all sequences of logon/logout, order, cancel and market data messages from 2 agents over 2 tickers up to a depth",
 "test_exchange never constructs an exchange agent.",
 ["esl/economics/markets/centralized_exchange.hpp"],
 "message callbacks of centralized_exchange; positions and market_data_subscriptions tables",
 [("positions", "per ticker and agent"), ("market_data_subscriptions", "per ticker and agent")])

prop("C13", "Market-maker quotes bracket the reservation price as the model prescribes",
 "The Avellaneda-Stoikov quotes equal the published model up to one unit of price resolution: bid and ask lie symmetrically around a reservation price that falls with net inventory, and the bid never exceeds the ask. "
 "The spread does not shrink when volatility increases, nor when the session has longer to go, and a market maker without risk aversion quotes the risk-neutral limit. "
 "Quotes are in the currency of the mid price.",
 ["inputs"],
 "the full grid of mid prices, inventories, times, volatilities, risk aversions and intensities of a finite alphabet",
 "test_avellaneda_stoikov does not compile, and checks one mid price.",
 ["esl/economics/markets/order_book/avellaneda_stoikov.hpp"],
 "closed-form expressions evaluated in floating point and rounded to prices")

# ---------------------------------------------------------------------- values
prop("C14", "Quantities are conserved by arithmetic and never become negative",
 "Addition, subtraction, multiplication, increments and decrements of quantities give the exact integer result whenever it is representable in 64 bits, and an operation whose result would be negative is an error that leaves its operands unchanged. "
 "Dividing a quantity into n parts gives n parts that sum to the original and differ by at most one, larger parts first, for run-time and compile-time n alike. "
 "Comparisons and conversions agree with the integer amounts.",
 ["inputs"],
 "all pairs of amounts in a range plus the extremes of the representation, all part counts up to a bound",
 "test_quantity checks a handful of amounts around 350.",
 ["esl/quantity.hpp"], "operators on a 64-bit amount; division with remainder distributed to the first parts")

prop("C15", "Price arithmetic is exact, and prices of different currencies never mix",
 "Sums, differences, products, negation and integer multiples of prices in one currency give the exact integer number of the currency's smallest unit in the same currency, and quotients are truncated towards zero; scaling by and division by a real number truncates towards zero to a whole number of smallest units. "
 "Ordering of prices of one currency is the ordering of their amounts, equality requires equal currency and amount, and ordering, adding, subtracting, multiplying or dividing prices of different currencies is an error that changes nothing. "
 "Rounding a real amount to a price loses less than one smallest unit. "
 "The text of a price is its currency and its amount with as many decimals as the currency has, and writing it leaves the format of the stream as it was.",
 ["inputs"],
 "all pairs of amounts in a range plus extremes, over currencies with different denominators, all operators",
 "There is no price test at all.",
 ["esl/economics/price.hpp", "esl/economics/price.cpp", "esl/economics/iso_4217.hpp"], "int64 value with an ISO 4217 denomination")

prop("C16", "Quotes order and convert consistently with their price and lot size",
 "For quotes of the same lot size and currency all six comparisons agree with the comparison of the prices (as far as price times lot is representable), and sums, differences, products, quotients and multiples by a real number are those of the prices with the lot kept. Comparing quotes of different lot sizes, or computing with them, is an error in every one of these operators, and so is ordering quotes of different currencies or computing with them. "
 "Copies and assignments preserve type, price and lot, a lot of zero is an error, and conversion to a number divides the price in currency units by the lot size. "
 "Encoding a quote as a level of an order book succeeds exactly for quotes between the book's limits, keeps their order, gives different quotes different levels, and decoding a level that encodes a quote gives back the same quote.",
 ["inputs"],
 "all pairs and triples of quotes from a grid of prices, lots and currencies",
 "Quotes are only constructed in passing tests.",
 ["esl/economics/markets/quote.hpp", "esl/economics/markets/order_book/static_order_book.hpp"], "variant of quotable types plus lot size; comparison operators check the lot")

prop("C17", "Interval predicates agree with interval membership",
 "For every interval and value, membership holds exactly for the values between the bounds, including a bound if and only if that end is closed; an interval is empty when it has no members, a singleton when it has exactly one, and degenerate when it is either, for integral numbers taking into account that there are no values in between. "
 "The textual form shows both bounds with a square bracket at closed and a parenthesis at open ends. "
 "In particular simulation time intervals include their lower and exclude their upper bound.",
 ["inputs"],
 "all intervals with bounds in a range, all four combinations of open and closed ends, integral and real number types, every probe value around the bounds",
 "test_mathematics_interval checks 12 hand-picked intervals, and not membership.",
 ["esl/mathematics/interval.hpp", "esl/simulation/time.hpp"], "compile-time closedness flags with comparisons against lower and upper")

prop("C18", "Currency conversion applies the exact ratio and keeps the denomination",
 "Multiplying a price by an exchange rate gives a price of the same denomination whose amount is the exact product with the rate's ratio, rounded towards zero, for positive and negative amounts alike. "
 "Arithmetic and comparisons of rates agree with rational arithmetic on the exact ratios, chaining rates multiplies them, and a rate made from a real number is that number rounded towards zero to the requested precision. "
 "Money converts real amounts into quantities and prices of its own denomination, by default rounding towards zero and otherwise by the rounding rule it is given, without creating value; a negative amount is not a quantity and is an error. Cash of equal currency is the same property, and of different currencies a different one.",
 ["inputs"],
 "all amounts in a range (negative too) with all rates of small numerators and denominators, over currency pairs with different denominators",
 "No test covers exchange rates, rates or money.",
 ["esl/economics/exchange_rate.hpp", "esl/economics/rate.hpp", "esl/economics/money.hpp", "esl/economics/cash.hpp"], "rational numbers of 64-bit integers")

prop("C19", "Identities are unique, hierarchical, and totally ordered",
 "Every child identity created from a parent, in whatever order children of different parents are created, extends the parent's identity by one number and differs from every other identity created. "
 "Comparison of identities is a strict total order that is lexicographic in their digits (a parent precedes its descendants), equality means equal digits, and equal identities have equal hashes whatever type they identify. "
 "The textual form is injective and lists the digits in order, with a fixed width that makes textual order agree with identity order when a width is requested, and writing it leaves the format of the stream as it was.",
 ["histories", "inputs"],
 "all creation trees up to a size, all pairs and triples of identities over a digit alphabet with extremes up to length 3-4",
 "test_identity and test_entity check a few literal identities.",
 ["esl/simulation/identity.hpp", "esl/simulation/entity.hpp", "esl/simulation/identifiable_as.hpp"], "vector of digits; per-entity child counter")

prop("C20", "Ordering, equality and hashing agree for every type used as a key",
 "For each value type of the library that is used as a key or compared (currencies, country codes, market identifier codes, share classes, tickers, quantities, prices of one currency), order is a strict weak order, values neither of which precedes the other are equal, all comparison operators agree with that order, and equal values hash equally. "
 "As a consequence containers keyed by these types hold distinct values apart and find every value that was inserted. "
 "Construction of currency, country and market codes accepts exactly the well-formed codes (capital letters, for markets also digits, of the prescribed length; a positive denominator) and rejects all others with an error.",
 ["inputs"],
 "all pairs and triples over exhaustive small alphabets of each type, all two-character country codes, three-character currency and four-character market codes over boundary characters",
 "No test compares or hashes these types.",
 ["esl/economics/iso_4217.hpp", "esl/geography/iso_3166_1_alpha_2.hpp", "esl/economics/markets/iso_10383.hpp", "esl/economics/finance/share_class.hpp", "esl/economics/markets/ticker.hpp", "esl/quantity.hpp", "esl/economics/price.hpp"], "hand-written comparison operators and std::hash specialisations")

prop("C21", "Property transfers conserve property and never overdraw an owner",
 "Whatever transfers are requested between owners, the total quantity of every property over all owners stays constant once all transfers have been handled, and no owner holds a negative quantity. "
 "A transfer takes from the transferor exactly what the transferee receives; if the transferor lacks any of the items, it is an error that stops the step and takes nothing from the transferor, overall or by type; a transfer to oneself changes nothing. "
 "An agent's holdings as seen by type (cash, stock, ...) always agree with its overall inventory.",
 ["histories"],
 "all sequences of up to 3-4 transfers of fungible and infungible property between 2-3 owners with amounts around what is held, with self transfers",
 "test_owner does not build; it has two single successful transfers.",
 ["esl/economics/owner.hpp", "esl/economics/accounting/inventory.hpp", "esl/interaction/transfer.hpp"], "transfer message handled by transferor (erase) and transferee (insert) at priority 50",
 [("inventory", "all property of an owner"), ("properties", "type-filtered view")])

prop("C22", "Inventories add and remove property exactly, and refuse what they do not hold",
 "Inserting property into an inventory adds exactly the given quantity of exactly that property, and removing takes away exactly the given quantity; property that reaches zero is no longer held. "
 "Removing more than is held, or an item that is not held, is an error that leaves the inventory unchanged, also when several items are removed at once; an infungible item can be held at most once. "
 "Size, lookup and iteration always reflect the items held.",
 ["histories"],
 "all sequences of insert/erase (single, multiple, whole inventories) over 2-3 items and small quantities up to a depth, fungible and infungible",
 "No passing test uses an inventory.",
 ["esl/economics/accounting/inventory.hpp", "esl/law/property_collection.hpp"], "hash map keyed by property identity")

# --------------------------------------------------------------------- finance
prop("C23", "Securities codes carry the check digits their standards prescribe",
 "For every well-formed ISIN, CUSIP, SEDOL and LEI the computed check digits equal those of the ISO 6166, CUSIP, SEDOL and ISO 17442 standards, however the object was constructed (from text or from parts), and the textual form reproduces the complete code. "
 "Any single-character substitution that the standards' check digits detect changes the check digits. "
 "Text that is too short, too long or has a wrong check digit is rejected where the full code including check digits is given.",
 ["inputs"],
 "for each standard, all single-character variations at each position and all pairs of positions over the full alphabet around base codes, plus exhaustive short ranges",
 "The tests check three to ten published codes each.",
 ["esl/economics/finance/isin.hpp", "esl/economics/finance/cusip.hpp", "esl/economics/finance/sedol.hpp", "esl/law/legal_entity.hpp"], "checksum() members over the character arrays")

prop("C24", "Dividends never exceed the profit and treat all shares of a class alike",
 "For every distribution of shares over holders and share classes, the number of shares outstanding and the set of distinct holders are exactly those registered. "
 "The dividend per share is the same for all shares of a class and total payout never exceeds the amount to be distributed nor falls short of it by more than one smallest currency unit per share. "
 "The total of a dividend policy equals the sum over classes of number of shares times dividend per share. A dividend policy is announced exactly once to every registered holder, on its announcement date or as soon afterwards as the company knows of it, and the holdings of a shareholder by stock are the sums of its registered shares.",
 ["inputs", "histories"],
 "all small registers (holders x classes x counts) and all profits in a range",
 "Companies and dividends have no test.",
 ["esl/economics/company.cpp", "esl/economics/company.hpp", "esl/economics/finance/dividend.cpp", "esl/economics/finance/dividend.hpp", "esl/economics/finance/shareholder.cpp"], "share register maps and compute_dividend_per_share")

prop("C25", "Accounting values equal quantity times price, with liabilities negative",
 "The value of a quantity of stock is the exact number of shares times its quoted price divided by the quoted lot, in the quote's currency and with the price's sign; cash is worth its amount; cash in another currency is converted at the recorded rate into the reporting currency, and having no rate is an error; loans (one unit of the reporting currency per unit of quantity) and securities lent are valued as the negative of the asset borrowed. "
 "A property without a known value is an error, not zero. "
 "Valuation depends only on the most recent price recorded for the property.",
 ["inputs", "histories"],
 "all small quantities, prices (negative too) and lots, and all sequences of price updates up to a depth",
 "No test values anything.",
 ["esl/economics/accounting/standard.hpp"], "property_value visitor functions over prices per property")

prop("C26", "Cash flow statements add up over any split of the reporting period",
 "The net flow over a period equals the sum of exactly the entries dated from its start (inclusive) to its end (exclusive), and equals income (the positive entries) plus expenses (the negative ones), which each add up likewise. "
 "Splitting a period at any time splits the flow without loss or double counting. "
 "Recording an entry never changes the flow of periods that do not contain its date.",
 ["histories", "inputs"],
 "all sequences of up to 4 entries (date, category, signed amount) and all sub-periods of the recorded range",
 "No test covers the cash flow statement.",
 ["esl/economics/accounting/cash_flow_statement.hpp"], "multimap from date to flows per category")

# ------------------------------------------------------------------ parameters
prop("C27", "Parameter samplers cover the parameter space as their design promises",
 "A grid sample of parameters contains every combination of equally spaced values, including both end points of each parameter's range, exactly once. "
 "A latin hypercube sample has exactly one point in each of the equally probable strata of every parameter, for any number of samples, and improved hypercube samples are permutations of the strata in every dimension. "
 "All sampled values are finite, lie within the parameter's range, and depend only on the seed.",
 ["inputs", "configurations"],
 "all dimension counts, densities and sample counts up to a bound (density 1 included), many seeds",
 "test_parameter checks one configuration of each sampler for uniqueness only.",
 ["esl/simulation/parameter/sampler.hpp", "esl/simulation/parameter/parameter.hpp"], "index arithmetic over densities; shuffled strata")

prop("C28", "Library algorithms compute what they name for every input size",
 "Integer powers, array concatenation and slicing, container-to-array copies, enumeration, rounding rules, geometric means and growth rates give their mathematical result for every admissible input, including empty and single-element inputs where these are admissible. "
 "Allocating a target over fractions returns whole numbers that sum to the target exactly, each within one of its exact share. "
 "Barycentric samples have non-negative coordinates that sum to one and cover every grid point of the simplex exactly once.",
 ["inputs"],
 "all small vectors over small value sets, all array sizes up to a bound, all targets up to a bound",
 "test_algorithms checks one instance of four of the functions.",
 ["esl/algorithms.hpp"], "stand-alone templates")

# ------------------------------------------------------------------------ data
prop("C29", "Saving and restoring gives back an equal object",
 "For every value type of the library that offers serialisation (times and intervals, identities, quantities, prices, quotes, currencies, rates, messages with their headers, output series), restoring a saved object yields an object equal to the original in every field that determines its behaviour. "
 "This holds for text, binary and XML archives. "
 "Saving does not modify the object.",
 ["inputs"],
 "all values of small exhaustive sets of each type including extremes, through each archive format",
 "No test serialises anything.",
 ["esl/economics/price.hpp", "esl/economics/markets/quote.hpp", "esl/economics/exchange_rate.hpp", "esl/economics/rate.hpp", "esl/simulation/identity.hpp", "esl/interaction/header.hpp", "esl/mathematics/interval.hpp", "esl/mathematics/rational.hpp", "esl/data/output.hpp", "esl/data/serialization.hpp"], "Boost.Serialization save/load members")

prop("C30", "Recorded outputs and delimited text lose nothing and can be read back",
 "Every value put into an output is kept with its time in the order in which it was recorded, and when unbuffered is written once, immediately, to every stream attached to that output and to no other. "
 "A row rendered as delimiter-separated values is one record that a reader of quoted and escaped fields splits back into exactly the text of the original fields, whatever their type and whatever characters they contain, and the text of a container lists every one of its elements once. "
 "Attaching a stream to an output that does not exist is an error, and so is creating a second output under the same name.",
 ["inputs", "histories"],
 "all sequences of put/attach/create up to a depth; all short strings over an alphabet of delimiters, quotes, escapes and line ends",
 "No test covers outputs or DSV.",
 ["esl/data/output.hpp", "esl/data/output_base.hpp", "esl/data/producer.hpp", "esl/data/representation.hpp", "esl/data/file.cpp", "esl/data/format/delimiter_separated_values.hpp"], "vector of time-value tuples and stream list; escaping renderer")

prop("C31", "Walrasian clearing neither creates nor destroys property",
 "At the clearing of a Walrasian market the quantities bought equal the quantities sold for every property, and each participant buys or sells the whole number of units within the demand it states at the clearing prices, where the imbalance of the rounded demands is spread evenly over those that expressed a demand. "
 "A participant that buys first returns borrowed units for which it pays the previous price, and receives the rest for the new price; one that sells first delivers the units it holds and then borrows the rest, and receives the new price for both, so that every participant's net transfers of properties, borrowed units and money follow from its own orders to within one smallest unit of money for each trade, with no item counted twice when transfers of several properties are netted. "
 "The new price is the previous price times the multiplier that was found, never below the smallest unit, and is quoted to every participant once, and nothing moves when there are no orders. "
 "Multipliers bring excess demand to zero, up to tolerance, where it has one root within the limits of the circuit breaker, and are always within those limits.",
 ["inputs", "histories"],
 "all demands, long and short positions of 2-3 participants over small values, for 1-2 properties, prices, lot sizes, multipliers and 1-2 clearings; families of excess demand functions with known roots",
 "test_walrasian_market cannot be built here (needs Adept), and clears one market of equal traders.",
 ["esl/economics/markets/walras/price_setter.cpp", "esl/economics/markets/walras/tatonnement.cpp"], "excess demand model solved with GSL; allocations to transfers with netting")

prop("C32", "Distributing agents over processes does not change a simulation's results",
 "A model run on any number of MPI processes with any assignment and migration of agents sends the same messages at the same times as on a single process. "
 "Each agent exists on exactly one process, and messages follow migrated agents.",
 ["schedules", "configurations"],
 "all message interleavings of 2-3 processes with migrations",
 "The MPI code is not compiled (WITH_MPI does not build at this commit).",
 ["esl/computation/distributed/mpi_environment.cpp", "esl/computation/distributed/protocol.hpp"], "all-to-all exchanges of messages, activations and migrations")

prop("C33", "A log keeps every message of sufficient severity whole, and no other",
 "What is written through a channel that a log hands out for a severity at or above the severity the log filters by is kept in the log once, in the order written, after a heading that states the severity and, when the place in the source is given, the file relative to the library and the line. Nothing written for a lower severity is kept. "
 "Line ends of either kind end a message and never block. "
 "When several threads write to one log, every value written appears whole and exactly once, in the order in which its thread wrote it.",
 ["inputs", "schedules"],
 "all sequences of messages of every severity, place and short content in logs of every severity; all interleavings of 2-3 threads up to a preemption bound",
 "No test covers the log, and none logs from several threads.",
 ["esl/data/log.hpp", "esl/data/channel.hpp", "esl/data/severity.hpp", "esl/data/null_streambuf.hpp"], "compile-time filter, formatting of the heading, and a lock for each value written")

prop("C34", "An impact-function market moves its prices by the impact of net volume",
 "Once it has sent its first quotes, an impact-function market that acts on orders moves the price of each property that is ordered by the impact function at its net volume, which is the units bought less the units sold over the orders of all participants, to within the smallest unit of money for the quoted lot and never below that unit. "
 "Neither the order in which orders arrive nor their division over participants matters, and prices of other properties, or of any property when there are no orders, stay as they are. "
 "Each time the market acts, it quotes the current price of every traded property to every participant once, for the next instant, and the clearing prices it records are those that it quotes.",
 ["inputs", "histories"],
 "all sets of orders of up to 3 participants over small signed volumes, for 1-2 properties, prices, lot sizes and impact functions; histories of 3-4 activations; many participants, properties and volumes of every magnitude in regular patterns",
 "No test covers this market.",
 ["esl/economics/markets/impact_function/market.cpp", "esl/economics/markets/impact_function/order.hpp", "esl/economics/markets/impact_function/quote.hpp"], "sum of signed volumes in floating point; multipliers applied to quoted prices")

prop("C35", "Investors know the latest quoted prices and claim each dividend once",
 "After any history of market quotes, in whatever steps and messages they arrive, a shareholder and a bondholder know for each property the price, in its currency, that was quoted last, and know no price of a property that was never quoted. "
 "When it hears a dividend announced, a shareholder sends one record for each dividend whose ex-dividend date lies in the current step to each such company in which it holds shares, stating for every class the number of shares it holds. "
 "It sends none twice, none for other dates, and none to companies in which it holds no shares.",
 ["histories"],
 "all histories of 4 (5) quote messages for two properties and two currencies in one or several steps; all histories of 3 steps with up to two announcements of two companies and all ex-dividend dates around the step; many properties, messages and companies in regular patterns",
 "No test sends quotes or announcements to an investor.",
 ["esl/economics/finance/shareholder.cpp", "esl/economics/finance/shareholder.hpp", "esl/economics/finance/bondholder.cpp", "esl/economics/finance/bondholder.hpp", "esl/economics/finance/dividend.hpp"], "maps of prices updated by message handlers; set of ex-dividend dates")

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(p, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
