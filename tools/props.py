"""The table of properties; gen.py writes properties.jsonl and MANIFEST.json from it."""
PROC = "src/program/processor/"
VAL = "src/program/validation/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, technique=technique, note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, reason=reason))


NOTE = ("Path-exhaustive over the compiler's MIR within the stated bounds (loops by one symbolic iteration with generalised state). "
        "Trusts the models of library calls (solana_program, spl_token, sokoban, borsh, core/alloc) and rustc's MIR; accounts in different slots are taken to be distinct.")
WHY_P = ("The unit tests exercise the in-memory order book and a few helpers; no reliable test drives an instruction through account validation, so every claim about all account "
         "lists, signers and instruction data is untouched by them.")
ABS = "path-sensitive symbolic dataflow over whole-program MIR from the instruction entry point"
ALLIX = "every instruction, account list, signer set and instruction payload"

prop("A01", "Trader operations act only for the signing trader",
     "Every instruction succeeds only if its designated acting account signed the transaction. Whatever an instruction does to a trader's orders, funds or registration on a market is done for that signer; "
     "only the two forced-exit instructions act for another trader, and then only for the trader account named in the instruction.",
     "inputs", ALLIX, WHY_P, ["src/lib.rs", VAL + "loaders.rs", PROC + "new_order.rs", PROC + "cancel_multiple_orders.rs", PROC + "withdraw.rs", PROC + "deposit.rs", PROC + "reduce_order.rs"],
     [("instruction dispatch", "src/lib.rs process_instruction"), ("signer validation", VAL + "loaders.rs PhoenixMarketContext, PhoenixLogContext"), ("market operations", PROC + "*.rs calls on the market object")],
     ABS + ": signer facts and key identity at every market call", NOTE)
prop("A02", "Administrative instructions only by the market authority",
     "Changing market status, seat status or fees, naming a successor, evicting a seat, force-cancelling orders and collecting fees succeed only when authorised: administrative changes need the signature of the market's recorded authority, "
     "and taking over the authority needs the recorded successor's. Evicting a seat or force-cancelling orders additionally never affects a trader whose seat is currently approved.",
     "inputs", ALLIX, WHY_P, [VAL + "loaders.rs", PROC + "governance.rs", PROC + "manage_seat.rs", PROC + "fees.rs", PROC + "cancel_multiple_orders.rs"],
     [("authority context", VAL + "loaders.rs AuthorizedActionContext"), ("authority claim", PROC + "governance.rs process_claim_authority"), ("approved-seat protection", PROC + "manage_seat.rs process_evict_seat; cancel_multiple_orders.rs force cancel")],
     ABS + ": equality facts between header authority and signer key", NOTE)
prop("A03", "Market authority changes hands only in two steps",
     "A market's authority changes only when the named successor itself claims it, and then becomes exactly that successor. Naming a successor changes the recorded successor to exactly the key requested and never the authority itself; at creation both are the market's creator.",
     "inputs histories", ALLIX + ", and so every sequence of them", WHY_P, [PROC + "governance.rs", PROC + "initialize.rs"],
     [("name successor", PROC + "governance.rs process_name_successor"), ("claim authority", PROC + "governance.rs process_claim_authority"), ("creation", PROC + "initialize.rs")],
     ABS + ": value flow into the authority fields", NOTE)
prop("A04", "Fee recipient cannot be changed past its owner while fees are due",
     "While the market holds uncollected fees, the fee recipient can be replaced only with the current fee recipient's own signature as well as the authority's. The new recipient is exactly the account named, and no other instruction changes the recipient after creation.",
     "inputs histories", ALLIX + " and every market state", WHY_P, [PROC + "fees.rs"],
     [("change fee recipient", PROC + "fees.rs process_change_fee_recipient"), ("recipient context", VAL + "loaders.rs ChangeFeeRecipient accounts")],
     ABS + ": conditional consent facts and field writes", NOTE)
prop("A05", "Only genuine market and program accounts are acted on",
     "An instruction succeeds only if the program account and log authority it was given are the real ones, and the market account is owned by the program and carries a genuine, initialised market header of the right type. "
     "Creating a market accepts only an uninitialised market account owned by the program.",
     "inputs", ALLIX + ", with arbitrary account contents and owners", WHY_P, [VAL + "loaders.rs", VAL + "checkers/phoenix_checkers.rs", "src/program/accounts.rs"],
     [("market checker", VAL + "checkers/phoenix_checkers.rs MarketAccountInfo"), ("log authority", VAL + "loaders.rs PhoenixLogContext"), ("discriminants", "src/program/accounts.rs get_discriminant")],
     ABS + ": owner, key and discriminant facts per path", NOTE)
prop("A06", "Only the right token accounts and vaults are ever used",
     "Every instruction that moves tokens succeeds only if the vaults are the two recorded for the market, the trader's token accounts hold the market's base and quote mints, are controlled by the trader acting, and the token program is the real one. "
     "Fees are paid out only to a quote-mint token account belonging to the recorded fee recipient.",
     "inputs", ALLIX + ", with arbitrary token accounts", WHY_P, [VAL + "loaders.rs", VAL + "checkers/token_checkers.rs", PROC + "fees.rs", PROC + "initialize.rs"],
     [("token account checker", VAL + "checkers/token_checkers.rs TokenAccountInfo"), ("vault context", VAL + "loaders.rs VaultContext/NewOrderContext"), ("fee context", VAL + "loaders.rs CollectFeesContext")],
     ABS + ": mint, owner, vault-key facts per path", NOTE)
prop("A07", "Trading needs an approved seat of the same trader on the same market",
     "Placing orders that can rest on the book and depositing funds succeed only with a genuine seat account that belongs to this market and this trader and is currently approved. Seat administration and forced exits act only on a genuine seat of this market and of the trader concerned.",
     "inputs", ALLIX + ", with arbitrary seat accounts", WHY_P, [VAL + "checkers/phoenix_checkers.rs", VAL + "loaders.rs", PROC + "manage_seat.rs"],
     [("seat checker", VAL + "checkers/phoenix_checkers.rs SeatAccountInfo"), ("order context", VAL + "loaders.rs NewOrderContext"), ("seat administration", PROC + "manage_seat.rs")],
     ABS + ": seat binding facts per path", NOTE)
prop("A08", "Audit log entries can come only from the program itself",
     "The log instruction succeeds only when signed by the program's own log authority, a derived address no outside key can sign for, and it does nothing else. Audit records are emitted only to that instruction and only with that authority's derived signature.",
     "inputs", ALLIX, WHY_P, ["src/lib.rs", VAL + "loaders.rs", "src/program/event_recorder.rs"],
     [("log instruction", "src/lib.rs / " + VAL + "loaders.rs PhoenixLogContext"), ("record emission", "src/program/event_recorder.rs flush")],
     ABS + ": signer and derived-key facts, effect list of the log instruction", NOTE)
prop("A09", "Each instruction writes only its own part of market and seat state",
     "Apart from the audit sequence number, a market header field changes only under the instruction documented to change it, and then to the documented value. Trading, deposits, withdrawals and cancellations change no header settings, and no instruction writes to accounts other than those it is documented to write.",
     "inputs histories", ALLIX, WHY_P, ["src/program/processor/mod.rs", PROC + "governance.rs", PROC + "fees.rs", PROC + "initialize.rs", "src/program/accounts.rs", "src/program/event_recorder.rs"],
     [("header", "src/program/accounts.rs MarketHeader"), ("writers", PROC + "governance.rs, fees.rs, initialize.rs"), ("seat writers", PROC + "manage_seat.rs")],
     "effect analysis: symbolic header delta and account write sets per path", NOTE)
prop("S01", "Market status gates what may be done",
     "Taking liquidity succeeds only in an active market: swaps are refused otherwise, and so is any limit order that would execute against the book. Placing orders, depositing and requesting a seat succeed only in an active or "
     "post-only market; reducing, cancelling and withdrawing in any status but uninitialised and tombstoned.",
     "inputs histories", ALLIX + " and each of the market statuses", WHY_P, [PROC + "new_order.rs", "src/program/status.rs", "src/lib.rs"],
     [("status predicates", "src/program/status.rs MarketStatus"), ("order gate", PROC + "new_order.rs"), ("others", PROC + "*.rs assert_with_msg on status")],
     ABS + ": status values admitted by the branch conditions of each successful path", NOTE)
prop("S02", "Market status follows the documented transition table",
     "A market status change succeeds exactly for the permitted transitions between active, post-only, paused, closed and tombstoned, and leaves the market in exactly the requested status. No other instruction changes a created market's status.",
     "inputs histories", "every pair of current and requested status", WHY_P, ["src/program/status.rs", PROC + "governance.rs"],
     [("transition table", "src/program/status.rs valid_state_transition"), ("change", PROC + "governance.rs process_change_market_status")],
     "exhaustive case analysis: one symbolic run per (current, requested) pair", NOTE)
prop("S03", "Seat approval follows its documented life cycle",
     "A seat's approval status changes only by the permitted transitions (a retired seat never becomes usable again, an unchanged request changes nothing) and ends as requested, with nothing else in the seat changed. Approving a seat registers its trader with the market.",
     "inputs histories", "every pair of current and requested approval status", WHY_P, [PROC + "manage_seat.rs", "src/program/status.rs"],
     [("transition table", "src/program/status.rs SeatApprovalStatus"), ("change", PROC + "manage_seat.rs process_change_seat_status"), ("registration", PROC + "manage_seat.rs get_or_register_trader")],
     "exhaustive case analysis: one symbolic run per (current, requested) pair", NOTE)
prop("S04", "A market account is destroyed only when nothing is left in it",
     "A market account is emptied and given back only when a closed market is tombstoned while both books are empty, no fees are uncollected and no trader is registered. Its lamports then all go to the authority or the named receiver and the account is handed to the system program with no data; no other instruction drains or frees it.",
     "inputs histories", ALLIX + " and every market content", WHY_P, [PROC + "governance.rs"],
     [("tombstone", PROC + "governance.rs process_change_market_status")],
     ABS + ": emptiness facts before, and account effects of, the removal", NOTE)
prop("S05", "Markets are created exactly as requested and only with valid parameters",
     "Creating a market succeeds only with a taker fee of at most 10000 basis points, token-program mints, and lot and tick sizes that divide evenly; the vaults are the derived accounts for this market and each mint. "
     "The recorded header holds exactly the requested parameters, mints, vaults and derived sizes, the creator as authority, the starting status and a fresh, empty market of the requested size.",
     "inputs", "every parameter combination and account list of market creation", WHY_P, [PROC + "initialize.rs", "src/program/accounts.rs"],
     [("creation", PROC + "initialize.rs process_initialize_market"), ("header", "src/program/accounts.rs MarketHeader::new")],
     ABS + ": conditions and stored values at creation", NOTE)
prop("S06", "Seats are created unapproved, at their own derived address",
     "A seat request succeeds only by creating a previously empty, system-owned account at the address derived from the market and the trader it is for, owned by the program and rent-funded by the payer. "
     "The new seat names that market and trader and is not approved; no other instruction creates accounts except market creation its vaults.",
     "inputs", "every seat request, account list and existing account state", WHY_P, [PROC + "manage_seat.rs", "src/program/system_utils.rs", "src/program/accounts.rs"],
     [("seat request", PROC + "manage_seat.rs process_request_seat"), ("account creation", "src/program/system_utils.rs create_account"), ("seat", "src/program/accounts.rs Seat::new_init")],
     ABS + ": facts, creation calls and stored seat per path", NOTE)
prop("S07", "All views of a market agree on its size, and only initialised ones load",
     "Reading and writing views of a market and the function that computes a market's size accept exactly the same set of book and seat sizes, and interpret an accepted combination as a market of exactly that capacity over exactly the market's own bytes. "
     "Every instruction except creation uses only views that refuse a market that was never initialised.",
     "inputs configurations", "every combination of bids, asks and seats sizes and every market byte content", "Unit tests check the sizes of a few combinations; nothing compares the four views combination by combination or covers the uninitialised case.",
     ["src/program/dispatch_market.rs", PROC + "initialize.rs"],
     [("views", "src/program/dispatch_market.rs load_with_dispatch*"), ("sizes", "src/program/dispatch_market.rs get_market_size")],
     "exhaustive case analysis of the dispatch table's branches, type-level size comparison", NOTE)

WHY_T = ("No reliable unit test drives an instruction through to its token transfers; the amounts depend on the engine's answer, lot sizes and free funds of every order, market and trader, "
         "so sampling cannot show that no path over- or under-pays.")
prop("T01", "Tokens moved for orders and withdrawals are exactly what the engine settled",
     "For orders paid from the trader's wallet, the trader pays into the vaults exactly what the matching engine says was taken and posted less free funds used, and receives exactly what it says was bought or released, each times the market's lot size for that token. "
     "Orders limited to free funds, and cancellations keeping funds on the market, move no tokens.",
     "inputs histories", "every trading, reducing, cancelling and withdrawing instruction with every engine answer, side, order type and number of orders", WHY_T,
     [PROC + "new_order.rs", PROC + "cancel_multiple_orders.rs", PROC + "reduce_order.rs", PROC + "withdraw.rs", "src/program/token_utils.rs"],
     [("order settlement", PROC + "new_order.rs process_new_order, process_multiple_new_orders"), ("withdrawal", "src/program/token_utils.rs maybe_invoke_withdraw"), ("deposit", "src/program/token_utils.rs maybe_invoke_deposit")],
     ABS + ": polynomial comparison of transfer amounts with engine answers", NOTE)
prop("T02", "Vaults sign only for documented transfers to and from the right accounts",
     "The program calls other programs only to move tokens between a vault and the user's account of the same token, to create seats and vaults, and to write its audit log. A vault's derived signature is used only for a transfer out of that very vault, "
     "and deposits move only with the signer's own authority.",
     "inputs", ALLIX, WHY_T, ["src/program/token_utils.rs", "src/program/system_utils.rs", "src/program/event_recorder.rs", PROC + "new_order.rs", PROC + "withdraw.rs", PROC + "fees.rs", PROC + "initialize.rs"],
     [("token calls", "src/program/token_utils.rs try_deposit, try_withdraw"), ("system calls", "src/program/system_utils.rs create_account"), ("log call", "src/program/event_recorder.rs flush")],
     "effect analysis: whitelist of cross-program calls with account, authority and seed provenance", NOTE)
prop("T03", "Forced exits and fee collection pay out everything to the rightful owner",
     "Evicting a trader releases all of its free funds and removes it from the market, or fails; a forced cancellation pays the released funds out. Both pay exactly what was released to the named trader's own token accounts, and fee collection pays exactly the fees collected, "
     "each times the lot size, to the fee recipient, and nothing else.",
     "inputs histories", "every eviction, forced cancellation and fee collection over every market state", WHY_T, [PROC + "manage_seat.rs", PROC + "cancel_multiple_orders.rs", PROC + "fees.rs", "src/program/token_utils.rs"],
     [("eviction", PROC + "manage_seat.rs process_evict_seat"), ("forced cancel", PROC + "cancel_multiple_orders.rs"), ("fees", PROC + "fees.rs process_collect_fees")],
     ABS + ": polynomial comparison of transfer amounts with engine answers", NOTE)
prop("T04", "Deposits credit exactly the tokens received",
     "A deposit moves exactly the requested lots, times the lot size, of each token from the signer into that token's vault. It credits exactly those lots to the free funds of the signer's own entry in the market and changes nothing else in it.",
     "inputs histories", "every deposit amount and market state", WHY_T, [PROC + "deposit.rs", "src/state/trader_state.rs", "src/program/token_utils.rs"],
     [("deposit", PROC + "deposit.rs process_deposit_funds"), ("credit", "src/state/trader_state.rs deposit_free_base_lots, deposit_free_quote_lots")],
     ABS + ": polynomial comparison of credited and transferred amounts", NOTE)

WHY_X = ("The reliable tests call the order book directly; none sends instruction bytes through decoding to the engine, and none could cover every payload, list length and failure option.")
prop("X01", "The engine is asked for exactly the operation the instruction requests",
     "Each trading, reducing, cancelling and withdrawing instruction performs its own market operation once, with the order, order ids, sides, sizes, limits and amounts decoded from its data, keeping released funds on the market exactly in the free-funds variants. "
     "A multi-order packet places its bids and asks as post-only orders with their own price, expiry and (merged per price and expiry) size and the packet's client id and failure options, and is refused if its bids cross its asks.",
     "inputs", "every instruction payload, including multi-order packets and id lists of any length", WHY_X,
     [PROC + "new_order.rs", PROC + "cancel_multiple_orders.rs", PROC + "reduce_order.rs", PROC + "withdraw.rs", "src/state/order_schema/order_packet.rs"],
     [("order packets", PROC + "new_order.rs process_new_order, process_multiple_new_orders"), ("cancellations", PROC + "cancel_multiple_orders.rs, reduce_order.rs"), ("withdrawal", PROC + "withdraw.rs"), ("decoding", "src/state/order_schema/order_packet.rs decode_order_packet")],
     ABS + ": value flow from the decoded payload into every argument of the engine calls", NOTE)
prop("X02", "Each order instruction accepts only its own kind of order",
     "Swap instructions accept only immediate-or-cancel orders and the limit-order instructions never do. The free-funds variants accept only orders limited to deposited funds, and the others only orders that are not.",
     "inputs", "every order packet in each of the four single-order instructions", WHY_X, [PROC + "new_order.rs", "src/state/order_schema/order_packet.rs"],
     [("checks", PROC + "new_order.rs process_swap, process_place_limit_order and free-funds variants"), ("predicates", "src/state/order_schema/order_packet.rs is_take_only, no_deposit_or_withdrawal")],
     ABS + ": order kinds and flag values admitted by each successful path", NOTE)
prop("X03", "An order is skipped only when asked for and unaffordable",
     "A successful order instruction drops an order only if the order (or packet) asks to be skipped on insufficient funds, and the trader's available funds are below what the order needs: its base lots for an ask, its value in quote lots for a bid. "
     "Available are the trader's free lots plus, where tokens may be taken, the whole lots in its token account, less what earlier orders of the packet used.",
     "inputs histories", "every order packet and multi-order packet, market state and wallet balance", WHY_X, [PROC + "new_order.rs", VAL + "checkers/token_checkers.rs"],
     [("skip test", PROC + "new_order.rs order_packet_has_sufficient_funds"), ("balances", PROC + "new_order.rs get_available_balances_for_trader"), ("running totals", PROC + "new_order.rs process_multiple_new_orders")],
     ABS + ": conditions on every path and loop iteration that places no order, running totals per iteration", NOTE)
prop("X04", "Orders are placed at the current slot and time",
     "Whenever an instruction asks the matching engine to place an order, the slot and the unix time it gives the engine for judging order expiry are those of the clock sysvar in this transaction.",
     "inputs", "every order placed by every order instruction", WHY_X, [PROC + "new_order.rs"],
     [("clock", PROC + "new_order.rs get_clock_fn closures")],
     "symbolic evaluation of the closures handed to the engine at each call site", NOTE)

WHY_E = ("No reliable unit test reaches the event recorder, its batching or the return data; whether events are lost depends on how many there are and in which order batches fill, which no sample of runs settles.")
REC = "src/program/event_recorder.rs"
prop("E01", "Every successful instruction leaves one numbered audit record",
     "Every successful instruction ends by sending the program's own log instruction a record headed by the instruction, the market, the signer, the current time and slot and the market's sequence number, as the last call it makes. "
     "It leaves the market's sequence number exactly one higher (a new market's at one), however many batches of events were sent; only the removal of the market account ends the numbering. Whatever the engine reports during the instruction goes into that record.",
     "inputs histories", ALLIX, WHY_E, [REC, "src/lib.rs", "src/program/accounts.rs"],
     [("recorder", REC + " EventRecorder::new, increment_market_sequence_number_and_flush"), ("end of instruction", "src/lib.rs process_instruction"), ("sequence number", "src/program/accounts.rs MarketHeader::increment_sequence_number")],
     ABS + ": last call, its data and the final sequence number per path; end-of-instruction function from an arbitrary recorder state", NOTE)
prop("E02", "No event is lost, repeated or miscounted in the audit log",
     "Events recorded in an instruction reach the log in order, each exactly once, in batches of at most 1280 bytes whose header announces exactly the number of events in the batch. "
     "An instruction succeeds only if every event it recorded was sent; a failed log call or any fault in recording fails it.",
     "inputs histories fault_sequences", "every number, kind and order of events in an instruction, and failure of any log call", WHY_E, [REC],
     [("batching", REC + " add_event, flush"), ("counters", REC + " EventStateTracker"), ("end", REC + " increment_market_sequence_number_and_flush")],
     "inductive step by path-exhaustive symbolic dataflow: recorder methods from an arbitrary recorder state", NOTE)
prop("E03", "Audit records state the market's events exactly, in the published layout",
     "Each market event is recorded as the record of its own kind, every field carrying the event's value of that name and the index its position among the instruction's events. The record kinds and their fields keep the published order and sizes, so existing readers decode them.",
     "inputs", "every event of every kind with arbitrary contents", WHY_E, ["src/program/events.rs", REC, "src/state/markets/market_events.rs"],
     [("translation", "src/program/events.rs From<MarketEvent>, set_index"), ("layout", "src/program/events.rs PhoenixMarketEvent and event structs")],
     "type-layout comparison and symbolic evaluation of the translation per event kind", NOTE)
prop("E04", "No instruction succeeds over a failed step",
     "If a token transfer, account creation, log call or any other call to another program fails, if the market cannot be loaded, or if the engine refuses to place, reduce, register or pay out, then the whole instruction fails. "
     "The only refusals an instruction may survive are orders it was asked to skip, which are never sent to the engine.",
     "inputs fault_sequences", ALLIX + ", and failure of any call", WHY_E, [PROC + "new_order.rs", PROC + "cancel_multiple_orders.rs", PROC + "withdraw.rs", PROC + "manage_seat.rs", "src/program/token_utils.rs", "src/program/system_utils.rs", REC],
     [("transfers", "src/program/token_utils.rs"), ("engine answers", PROC + "new_order.rs, withdraw.rs, reduce_order.rs"), ("log", REC + " flush")],
     ABS + ": outcome of every fallible call known on every successful path and iteration", NOTE)
prop("E05", "Placed order ids are returned to the caller",
     "An instruction that can rest orders on the book returns, as its return data, the list of the ids of exactly the orders it left on the book, in the order they were placed. The data is set after the last call to another program, so that it is not cleared, and is omitted only if there is no such order.",
     "inputs histories", "every order and multi-order packet and engine answer", WHY_E, ["src/lib.rs", PROC + "new_order.rs"],
     [("return data", "src/lib.rs process_instruction"), ("ids", PROC + "new_order.rs process_new_order, process_multiple_new_orders")],
     ABS + ": value and position of the return-data call per path, list contents per loop iteration", NOTE)

# ---------------------------------------------------------------- the matching engine
FIFO = "src/state/markets/fifo.rs"
MT = "src/state/markets/market_traits.rs"
WHY_M = ("The unit tests run the engine on a handful of hand-made books and one seeded simulation; the claim is about every book, trader state, packet, fee rate and clock reading, "
         "including combinations (expiry, self trade, full book, partial budgets) they never produce together.")
SEGM = "path-exhaustive symbolic dataflow over MIR, each market operation cut at its loops into stretches analysed from an arbitrary state: "
NOTE_M = (NOTE + " Arithmetic is exact (overflow aborts: the release profile keeps overflow checks); register entries reached through different indices are taken to be different traders, "
          "with additive changes so that coincidence is harmless; orders on a book carry indices that were registered.")
ALLM = "every market state, trader, order packet, fee rate and clock reading"

prop("M01", "Locked balances are exactly what resting orders need",
     "A trader's locked quote lots are at all times exactly the value of its resting bids, and its locked base lots exactly the total size of its resting asks. Every order added, filled, reduced, cancelled, expired or evicted moves the locked balance by exactly that order's change.",
     "inputs histories", ALLM + ", and so every sequence of operations", WHY_M, [FIFO, "src/state/trader_state.rs"],
     [("posting", FIFO + " place_order_inner"), ("fills", FIFO + " match_order"), ("cancelling", FIFO + " reduce_order_inner")],
     SEGM + "per-trader locked-balance delta equals the delta of its orders (polynomial equality)", NOTE_M)
prop("M02", "Every lot taken in is paid out, credited, locked or charged as a fee",
     "In every market operation, for base and quote lots alike, what is demanded as deposit less what is paid out equals the change of all traders' balances plus the change of uncollected fees. Nothing is created or lost, whatever mix of fills, refunds and postings the operation performs.",
     "inputs histories", ALLM + ", and so every sequence of operations", WHY_M, [FIFO, "src/state/matching_engine_response.rs", "src/state/trader_state.rs"],
     [("settlement", FIFO + " place_order_inner"), ("answers", "src/state/matching_engine_response.rs"), ("claims", FIFO + " claim_funds_inner")],
     SEGM + "potential argument with loop-invariant coefficients read off the last stretch", NOTE_M)
prop("M03", "A fill exchanges exactly its size at the resting order's price",
     "Each match trades against one resting order of the opposite side at that order's own price: its owner gives exactly the lots it had locked for the size traded and receives exactly their counter-value, and no other trader's balance changes. An order leaves the book exactly when nothing of it remains, and is otherwise only made smaller.",
     "inputs histories", ALLM, WHY_M, [FIFO, "src/state/trader_state.rs"],
     [("matching loop", FIFO + " match_order"), ("maker balances", "src/state/trader_state.rs process_limit_sell/buy")],
     SEGM + "effect of each matching iteration on orders and balances", NOTE_M)
prop("M04", "Matching takes the best live order first and respects the limit price",
     "An incoming order is always matched against the first order of the opposite book as it stands at that moment, so better prices, and among equal prices older orders, trade first. No fill happens at a price worse than the incoming order's limit, with an expired order or with an empty one.",
     "inputs histories", ALLM, WHY_M, [FIFO],
     [("matching loop", FIFO + " match_order")],
     SEGM + "identity of the order changed and entailment of the price and expiry conditions", NOTE_M)
prop("M05", "The taker fee is the fee rate on the value traded, rounded up, once",
     "Matching an order adds to the market's uncollected fees exactly the fee rate applied to the total value of its fills, rounded up, and nothing else adds to them. Collecting pays out exactly the uncollected fees, adds them to the collected total and leaves none uncollected; no operation but setting the fee changes the rate.",
     "inputs histories", ALLM, WHY_M, [FIFO],
     [("fee", FIFO + " compute_fee, place_order_inner"), ("collection", FIFO + " collect_fees")],
     SEGM + "term equality of the fee with the rate applied to the accumulated fill value", NOTE_M)
prop("M06", "A trader never trades with itself",
     "No fill ever has the same trader on both sides. When an incoming order meets its own trader's resting order the chosen behaviour applies: abort refuses the whole order, cancel removes the resting order and refunds it, decrement reduces both by the same size and refunds the resting side.",
     "inputs", ALLM + ", and every self-trade behaviour", WHY_M, [FIFO],
     [("self trade", FIFO + " match_order")],
     SEGM + "path conditions and effects of iterations on the taker's own orders", NOTE_M)
prop("M07", "Expired orders never trade or rest, and are refunded when met",
     "A resting order whose last valid slot or time has passed is never filled; when matching meets it, it leaves the book whole, its owner gets back what it locked, and its expiry is reported. An incoming order that has already expired changes nothing.",
     "inputs histories", ALLM, WHY_M, [FIFO, "src/state/order_schema/order_packet.rs"],
     [("expiry of makers", FIFO + " match_order"), ("expiry of packets", "src/state/order_schema/order_packet.rs is_expired")],
     SEGM + "expiry facts against effects, per iteration and return", NOTE_M)
prop("M08", "Orders fill as much as possible, within their size, budget and match limit",
     "Each fill takes as much as the remaining size, the remaining quote budget at that price and the resting order allow, and the total never exceeds the size or the budget. Matching stops only when one of these, the match limit or the opposite book is exhausted, or the best price is beyond the limit.",
     "inputs", ALLM, WHY_M, [FIFO, "src/state/inflight_order.rs"],
     [("budgets", "src/state/inflight_order.rs"), ("matching loop", FIFO + " match_order")],
     SEGM + "loop variables identified by what fills do to them; fill size and exit conditions", NOTE_M)
prop("M09", "The book never ends up crossed, and post-only orders never trade",
     "An order that comes to rest is priced strictly short of every live order of the opposite side. A post-only order that would cross is refused or, if it allows, moved to one tick short of the best live opposite order; it never trades.",
     "inputs histories", ALLM, WHY_M, [FIFO],
     [("crossing check", FIFO + " check_for_cross, place_order_inner")],
     SEGM + "entailment of non-crossing from the search facts on every return that adds an order", NOTE_M)
prop("M10", "A placed order rests with its own price, size, owner and a fresh id",
     "Placing adds at most one order, on its own side, owned by the trader placing it, with the price (one tick at least), remaining size and expiry asked for, under an id no other order ever had; that id is what the caller is told. What is left of a limit order rests unless it would reach a live opposite order; an immediate-or-cancel order never rests.",
     "inputs histories", ALLM, WHY_M, [FIFO],
     [("posting", FIFO + " place_order_inner"), ("numbering", FIFO + " order_sequence_number")],
     SEGM + "contents and key of every insertion, sequence-number delta", NOTE_M)
prop("M11", "Books are ordered by price, then by age",
     "Of two orders on the same side the one with the better price comes first - the higher for bids, the lower for asks - and of two with the same price the one placed earlier. An order id tells its side, and every part that reads the side from it reads the same.",
     "inputs", "every pair of order ids", WHY_M, [FIFO, "src/state/enums.rs"],
     [("comparison", FIFO + " Ord for FIFOOrderId"), ("side of an id", "src/state/enums.rs Side::from_order_sequence_number")],
     "symbolic evaluation of the comparison on two arbitrary ids, outcome by outcome", NOTE_M)
prop("M12", "A full book makes room only for a better order, by its worst one",
     "Placing removes another order of the same side only when that side is full, and then only the least aggressive one, only if the new order is strictly more aggressive, and refunds its owner in full. If the new order is not more aggressive than the worst order of a full side it is refused.",
     "inputs histories", ALLM + " and every book size", WHY_M, [FIFO],
     [("eviction", FIFO + " evict_least_aggressive_order, place_order_inner")],
     SEGM + "conditions and effects of removals on the placing side", NOTE_M)
prop("M13", "Claims pay exactly the caller's free funds; only empty traders leave",
     "Claiming pays out, per asset, the lesser of the amount asked for and the trader's free balance, takes exactly that from its free balance and touches no other trader. A trader leaves the register only on a claim that allows it and only when none of its balances, free or locked, is left.",
     "inputs histories", "every market state, trader and claim", WHY_M, [FIFO, "src/state/trader_state.rs", MT],
     [("claim", FIFO + " claim_funds_inner"), ("default claim", MT + " claim_all_funds")],
     SEGM + "answer and balance deltas of the claiming operation", NOTE_M)
prop("M14", "Every change to an order is reported by one matching event",
     "Each fill, reduction, expiry, eviction and placement produces exactly one event that states its order, sizes and owner truthfully, each matched order one summary with its true totals and fee, and each fee collection its amount. No event reports anything that did not happen.",
     "inputs histories", ALLM, WHY_M, [FIFO, "src/state/markets/market_events.rs"],
     [("events", FIFO + " record_event_fn calls")],
     SEGM + "event list compared field by field with the effects of the stretch", NOTE_M)
prop("M15", "Swaps meet their minimums; deposited-funds orders move no tokens",
     "An immediate-or-cancel order that executes is sized in exactly one of base and quote lots and succeeds only if what it took reaches both its minimum amounts. An order by a registered trader restricted to deposited funds requires no token deposit and pays no tokens out.",
     "inputs", ALLM, WHY_M, [FIFO],
     [("minimums", FIFO + " place_order_inner"), ("deposited funds", FIFO + " place_order_inner")],
     SEGM + "entailment on every successful return", NOTE_M)
prop("M16", "Cancelling removes exactly the caller's named orders, and frees their funds",
     "Reducing or cancelling affects only orders of the caller's own: the one named by exactly the amount asked or all that is left, all of the trader's orders, the named list, or those of one side within the price limit and counts given. What the order locked becomes free or, if claimed, is paid out in the same amount; anything not found or not the caller's is left untouched.",
     "inputs histories", "every market state, trader and cancelling request", WHY_M, [FIFO],
     [("reduce", FIFO + " reduce_order_inner"), ("cancel all / up to / many", FIFO + " cancel_all_orders_inner, cancel_up_to_inner, cancel_multiple_orders_by_id_inner")],
     SEGM + "effects per id handled; selection conditions read off the iteration over the book", NOTE_M)
prop("M17", "Market parameters are fixed at creation and only initialised markets trade",
     "A market is initialised once, with the tick and lot sizes asked for, the tick size being a whole multiple of the lots per unit, so that every price is exact. After that no operation changes them, and orders are accepted only on an initialised market with order numbers left.",
     "inputs histories", "every market state and operation", WHY_M, [FIFO, MT],
     [("initialisation", FIFO + " set_initial_params, initialize"), ("guards", FIFO + " place_order_inner"), ("fee", FIFO + " set_fee")],
     SEGM + "parameter deltas and guard facts", NOTE_M)
prop("M18", "A swap's quote budget includes its fee",
     "A swap that names a quote amount is limited so that, buying, the value of its fills and the fee on it together use that amount, and, selling, the value after the fee yields it. An order that names no quote amount is not limited in quote lots.",
     "inputs", "every quote amount, fee rate and lot size", WHY_M, [FIFO],
     [("budget", FIFO + " adjusted_quote_lot_budget_post_fee_adjustment_for_buys/sells")],
     SEGM + "initial value of the quote budget compared with the fee-adjusted amount", NOTE_M)

# ---------------------------------------------------------------- client side
IB = "src/program/instruction_builders/"
prop("W01", "Client builders build the instruction they name, on the accounts named",
     "Every public instruction builder returns instructions addressed to this program that carry the tag of the operation named, exactly the parameters given in the encoding the program decodes, and at every position the account of the role the program takes there, derived from the market, trader and mints given. Accounts sign and are writable where the program needs it, and those that need not sign do not.",
     "inputs", "every builder, market, trader, mint pair, token account and parameter", "Tests exercise few of the builders and compare only that a transaction succeeds; a swapped mint or amount of equal type passes unless the values happen to differ.",
     [IB + "market_instructions.rs", IB + "market_authority_instructions.rs", "src/program/instruction.rs"],
     [("trader instructions", IB + "market_instructions.rs"), ("authority instructions", IB + "market_authority_instructions.rs")],
     "symbolic evaluation of each builder's MIR; the returned value compared with the interface the handlers enforce", NOTE)

prop("W02", "Payloads, order packets and log records keep their published wire format",
     "Every value that crosses the program's boundary is read and written part by part in the published order, width and numbering: the instruction numbers; the parameters of every instruction; single and multiple order packets with their kinds, sides, self-trade and failure behaviours; the order ids returned; and the log records. Reading puts each part into the field it belongs to, and writing is its inverse, so transactions of existing clients and logs of earlier versions keep their meaning.",
     "inputs", "every value of every type sent to or by the program", "Round-trip tests use the same code for both directions, so a field or variant exchanged with another of equal width passes.",
     ["src/state/order_schema/order_packet.rs", "src/program/instruction.rs", "src/program/processor/new_order.rs", "src/program/events.rs", "src/state/enums.rs"],
     [("order packets", "src/state/order_schema/order_packet.rs"), ("parameters", "src/program/processor/"), ("log records", "src/program/events.rs"), ("instruction numbers", "src/program/instruction.rs")],
     "symbolic evaluation of the MIR of each type's encoder and decoder, per kind; the sequence of parts compared with the published format", NOTE)
prop("W03", "Stored accounts keep their layout",
     "Accounts written by earlier versions keep their meaning: every field of the market header, the seat, a trader's balances, an order's key, a resting order and the market itself lies at the published offset with the published width, at every published market size, all of which remain loadable; and the stored status numbers of markets and seats stand for the same statuses in both directions.",
     "histories", "every account created by an earlier version", "Tests create the accounts they read with the same build, so moved or exchanged fields stay invisible to them.",
     ["src/program/accounts.rs", FIFO, "src/state/trader_state.rs", "src/program/status.rs"],
     [("header and seat", "src/program/accounts.rs"), ("market", FIFO), ("balances", "src/state/trader_state.rs"), ("statuses", "src/program/status.rs")],
     "layout query: offsets, sizes and representation the compiler computes for each stored type against the published layout; status conversions evaluated symbolically", NOTE)
prop("W04", "Order constructors and accessors mean what their names say",
     "Each public constructor of orders, order lists and order ids puts every parameter into the field it names and fixes the rest at the documented defaults: post-only orders reject crossing unless adjustable, fill-or-kill orders set their minimum to their full size, buys by price spend quote, sells spend base, slippage orders carry their minimum in the other currency, and funds are taken from the wallet unless asked otherwise. Each accessor of an order packet answers the field it is named after, for every kind of order.",
     "inputs", "every constructor, accessor and parameter", "Most constructors appear in tests only with symmetrical or default values.",
     ["src/state/order_schema/order_packet.rs", "src/program/processor/new_order.rs", FIFO],
     [("order packet constructors", "src/state/order_schema/order_packet.rs"), ("multiple orders", "src/program/processor/new_order.rs")],
     "symbolic evaluation of each constructor's and accessor's MIR, compared field by field", NOTE)

# ---------------------------------------------------------------- not decided by static analysis
na("N01", "Vault balances always cover what the market owes",
   "At every moment the two vaults of a market hold at least the base and quote atoms owed: all traders' free and locked lots plus uncollected fees, times the lot sizes.",
   "histories", "every sequence of instructions and outside token transfers", "No test drives whole histories of instructions with real token balances.",
   [FIFO, "src/program/token_utils.rs"], [("engine balances", FIFO), ("transfers", "src/program/token_utils.rs")],
   "A sum over run-time token balances and all register entries, kept partly by the token program, which is not in this repository. The steps visible in the code are claimed: M02 (engine conserves lots), T01-T04 (transfers are exactly the lots settled times the lot size), T03/S04 (nothing leaves otherwise).")
na("N02", "Every admissible instruction fits compute, heap and transaction limits",
   "Whatever the size of the books and the number of orders matched or cancelled, an instruction within its own limits finishes within the runtime's compute, heap and instruction-size limits.",
   "inputs", "every book and packet", "Tests run off-chain without these limits.",
   [FIFO, "src/program/event_recorder.rs"], [("matching loop", FIFO + " match_order"), ("log batches", "src/program/event_recorder.rs")],
   "Costs in compute units and heap bytes are run-time quantities of the deployed binary that no analysis of MIR bounds. The one bound visible in the code, the size of a log call, is claimed in E02, and the match limit in M08.")
na("N03", "The ordered map under the books and register never loses or misorders entries",
   "Inserting, removing and iterating the red-black tree that holds orders and traders keeps every other entry, keeps key order, and never hands out one slot twice.",
   "inputs histories", "every sequence of tree operations", "Unit tests of this repository use the map indirectly, on small books.",
   [FIFO], [("books and register", FIFO + " RedBlackTree fields")],
   "The map is the external crate sokoban, not source of this repository; its invariants are heap shapes over index-linked nodes, out of reach of a sound static argument here. The checks take it as an ordered map; its key order is claimed in M11.")
na("N04", "No admissible order aborts on arithmetic overflow",
   "Orders, fills and fees within the documented size ranges never make the program abort by overflowing or underflowing an intermediate value.",
   "inputs", "every price, size, lot size and balance", "Tests use small numbers.",
   [FIFO, "src/quantities.rs"], [("products of price and size", FIFO), ("quantities", "src/quantities.rs")],
   "Whether a product of price, size, tick and lot size fits 64 bits depends on run-time magnitudes that nothing in the code bounds. That overflow aborts instead of wrapping is a build setting the checks rely on (section 1).")
na("N05", "Splitting an order never changes its outcome beyond rounding",
   "Executing one order in several parts, or a set of resting orders merged or split, yields the same fills and fees up to one rounding unit per part.",
   "inputs histories", "every order and every way of splitting it", "Tests sample a few orders.",
   [FIFO], [("matching loop", FIFO + " match_order"), ("fee", FIFO + " compute_fee")],
   "A numerical relation between two different histories; no single path of the code carries it. What each fill and fee is exactly is claimed in M03, M05, M08.")
