#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run it to rewrite the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
PN = "vectorbt/portfolio/nb.py"; PB = "vectorbt/portfolio/base.py"

p("C01", "Order fills follow the order contract and conserve cash and assets",
  "Every order simulated over any price feed (gaps, missing or extreme ticks included) is filled, partially filled, ignored or rejected exactly as its documented fields say (size and size type, direction, price, fees, fixed fees, slippage, min/max size, granularity, lock-cash, partial-fill, reject probability 0 or 1, raise-on-reject). A fill changes cash and position by exactly the recorded size, price and fees, never spends cash or sells holdings that the direction and lock rules do not make available, and an ignored or rejected order leaves cash, position, debt, free cash and value untouched. The optional log reports, for every attempted order, the true state before and after, the request and the result.",
  ["inputs", "histories", "fault_sequences"],
  "every sequence of orders of every type with every field combination, over every price feed including feeds with gaps, zero and infinite prices, and every schedule of venue rejections",
  "tests replay a handful of fixed 5-bar feeds with one field varied at a time; fill, reject and lock rules interact across bars through cash, debt and free cash, and only long histories with combined fields reach those states",
  [PN, PB, "vectorbt/portfolio/enums.py"],
  [("order execution: buy, sell, lock-cash, rejection", PN + " execute_order_nb/buy_nb/sell_nb"), ("log record writing", PN + " fill_log_record_nb"), ("Portfolio.from_orders", PB)],
  [("cash, position, debt, free_cash, val_price, value", "execution state carried from order to order", PN + " ExecuteOrderState")],
  ["Portfolio.from_orders(...).order_records / log_records"])
p("C02", "Groups with shared cash process orders in the declared call sequence",
  "In a group that shares cash, the orders of one bar are processed exactly in the bar's call sequence (default, reversed, random from the seed, or custom), each seeing the cash and value left by those before it, and the realised call sequence reported is a permutation of the group's columns on every bar. With automatic sequencing, orders are processed in ascending order of their value at the bar, so sells release cash before buys spend it. Groups never influence each other, and without sharing, columns never do.",
  ["schedules", "inputs", "histories"],
  "every call-sequence schedule, grouping layout, order mix and price feed",
  "tests use three columns in one or two groups with a few fixed sequences; what differs is which order sees which cash, which needs contention between columns at the same bar under every sequence",
  [PN, PB],
  [("call sequence building and auto sorting", PN + " build_call_seq/sort_call_seq_nb"), ("group loop and shared cash", PN + " simulate_from_orders_nb")],
  [("call_seq", "per-bar processing order of columns inside their group", PN)],
  ["Portfolio.from_orders(cash_sharing=True, call_seq=...).order_records / log_records / call_seq"])
p("C03", "Callback simulators run user callbacks in order, and fail cleanly",
  "The order-function simulators (column-wise, row-wise, flexible and flexible row-wise) call every user callback exactly once per lifecycle point, in the documented nesting order, and each context shows the state (cash, position, value, prices, last record counts, previous results) that the orders processed so far produced. Orders returned are executed with the same contract as array-based orders, and the flexible variants accept any number of orders per bar. A callback that raises at any point stops the simulation with that same error, leaves the caller's inputs and other portfolios unchanged, and a fresh run afterwards is unaffected.",
  ["schedules", "crash_points", "histories"],
  "every simulator, grouping, segment mask, order plan, and every callback invocation as the point of failure",
  "tests assert call counters for one fixed shape and never raise from a callback; context contents are compared at a few bars only",
  [PN, PB],
  [("simulate / row-wise / flex simulators", PN + " simulate_nb, simulate_row_wise_nb, flex_simulate_nb, flex_simulate_row_wise_nb"), ("value and return updates around orders", PN + " update_value_nb")],
  [("last_cash, last_position, last_value, second_last_value, last_return, last_pos_record", "state exposed to callbacks", PN)],
  ["Portfolio.from_order_func with recording callbacks"])
p("C04", "All simulators give the same result for the same orders",
  "The same sequence of orders yields the same order records, log records, and portfolio state whether it is given as arrays or returned from an order function, run column-wise or row-wise, through the flexible interface, as size or as the equivalent signals, and with or without JIT compilation. The amount of record storage the caller reserves never changes a result: with enough storage the records are complete, and with too little the simulation raises instead of losing or overwriting records.",
  ["configurations", "inputs", "fault_sequences"],
  "every order plan without cash sharing plus those with sharing in a common call sequence, every simulator and mode, and every storage limit from zero upward",
  "tests compare a few fixed plans between two simulators at a time and never vary the storage limits together with the plan",
  [PN, PB],
  [("five simulators over one execution core", PN), ("record buffers of bounded size", PN + " process_order_nb")],
  [("order_records, log_records buffers", "bounded storage for fills and logs", PN)],
  ["order_records and log_records of each simulator"])
p("C05", "Signals and stop orders follow the documented state machine",
  "Signal-based simulation turns entry and exit signals into orders by the documented rules for direction, accumulation, and conflicting or opposite signals. Once a position is open, stop loss, trailing stop and take profit are evaluated bar by bar against open, high, low and close in the documented way (entry price source, trailing high or low, gaps, first stop hit wins, exit price and exit mode, stop update mode on accumulation, stop versus signal conflicts), so the executed orders equal those of a bar-by-bar state machine. Dynamic signal and stop-adjustment callbacks see the same state and have the same effect as arrays holding the same values.",
  ["histories", "inputs", "configurations"],
  "every signal history, OHLC feed (with gaps and missing bars), stop configuration and combination of modes",
  "tests fix one 5-bar OHLC feed per option; interactions between trailing state, accumulation, gaps, reversals and conflict modes over time are not sampled",
  [PN, PB, "vectorbt/portfolio/enums.py"],
  [("signal resolution", PN + " resolve_*_conflict_nb, signals_to_size_nb"), ("stop state machine", PN + " simulate_from_signal*_nb, get_stop_price_nb, should_update_stop_nb")],
  [("sl/tsl/tp stop init price, stop, trail", "per-column stop state carried over bars", PN)],
  ["Portfolio.from_signals(...).order_records / log_records"])
p("C06", "Portfolio accounting reconstructed from records matches simulated state",
  "For every portfolio, whatever simulator and venue behaviour produced it, cash, assets, asset value and total value reconstructed from the order records equal the state in force at each bar's end during simulation, per column and per group, with or without cash sharing. Cash flow and asset flow sum to the change in cash and assets, total value equals cash plus asset value, returns compound to the change in value, and total profit equals final value minus initial cash, which also holds when automatic initial cash is used.",
  ["histories", "inputs", "configurations"],
  "every simulated history of fills and rejections, grouping and cash-sharing layout, and initial-cash mode",
  "tests compare reconstructed series to constants for one portfolio shape; agreement must hold for every history including short positions, shared cash, rejected orders and feed gaps",
  [PN, PB],
  [("flow and value reconstruction", PN + " asset_flow_nb, assets_nb, cash_flow_nb, cash_nb, value_nb, returns_nb"), ("Portfolio methods", PB)],
  [("init_cash, order_records, call_seq, close", "inputs of the reconstruction", PB)],
  ["Portfolio.cash/assets/asset_value/value/returns/total_profit"])
p("C07", "Trade and position records conserve size, fees and profit",
  "For every history of fills, entry trades, exit trades and positions partition the fills: for each column closed and open sizes match the fills, fees are fully attributed, and profits summed over trades equal those summed over positions and equal the portfolio's total profit at the last close. Each record's direction, entry and exit prices, indices, status and return agree with those obtained by replaying the fills one at a time, and a position reversal closes one trade and opens another at the same bar. While simulating, the position record exposed to callbacks equals the record reconstructed afterwards for the same fills.",
  ["histories", "inputs"],
  "every history of increasing, decreasing, closing and reversing fills on both sides, in every column",
  "tests pin records of one ten-order example per direction; partial reductions, reversals and zero-cost fills in every order are not sampled",
  [PN, "vectorbt/portfolio/trades.py", PB],
  [("trade and position builders", PN + " get_entry_trades_nb, get_exit_trades_nb, get_positions_nb"), ("in-simulation position record", PN + " update_pos_record_nb")],
  [("in-progress entry/exit sums", "running weighted sums of an open trade", PN)],
  ["Portfolio.entry_trades / exit_trades / positions, context pos_record"])
p("C08", "Nothing before a feed interruption depends on what comes after it",
  "For every pipeline of built-in indicators, signal generators, return and drawdown series, and portfolio simulation, cutting the price feed at any bar, or replacing everything after that bar with other data, leaves all outputs up to that bar unchanged. Functions documented as forward-looking (future rolling labels, backfill, negative shift) are exempt.",
  ["crash_points", "inputs", "programs"],
  "every cut point of every feed for every causal public function and pipeline of them",
  "tests compare whole-series outputs on fixed inputs; look-ahead introduced at a window edge, on a missing tick or in a stop price shows up only when the feed is cut there",
  [PN, "vectorbt/indicators/nb.py", "vectorbt/signals/nb.py", "vectorbt/generic/nb.py", "vectorbt/returns/nb.py"],
  [("bar-by-bar loops over past values", "vectorbt/generic/nb.py, vectorbt/indicators/nb.py"), ("signal generators", "vectorbt/signals/nb.py"), ("portfolio simulation", PN)],
  (), ["indicator outputs, signal arrays, order records, value and returns series"])
p("C09", "A corrupted or missing column never affects the other columns",
  "Corrupting, dropping or reordering the feed of one asset, or adding further assets, leaves every result for the other assets unchanged, in indicators, rolling and signal functions, records, and portfolio simulation (assets in other groups when cash is shared). Selecting columns of a result gives the same as computing on the selected columns alone, and repeating any read gives the same answer whatever was read or selected before.",
  ["inputs", "fault_sequences", "histories"],
  "every set of columns, corrupted subset, column order, selection, and order of reads",
  "tests use two or three clean columns; cross-column leakage needs state carried from one column to the next, which only shows for particular contents of the previous column",
  ["vectorbt/generic/nb.py", "vectorbt/indicators/nb.py", "vectorbt/signals/nb.py", "vectorbt/records/base.py", "vectorbt/records/nb.py", "vectorbt/base/array_wrapper.py", PN, PB],
  [("per-column loops", "nb modules"), ("column mapping of records", "vectorbt/records/nb.py col_range/col_map"), ("indexing of wrappers, records and portfolios", "vectorbt/base/indexing.py, vectorbt/base/array_wrapper.py")],
  (), ["per-column outputs and indexed objects"])
p("C10", "A fixed seed reproduces every random result, whatever ran before",
  "Given the same seed and arguments, random signal generation, random call sequences, random order rejection, synthetic data and random column operations return the same result however many random draws happened earlier, and different calls with a seed do not depend on each other. Random signal generators honour their contract for every seed: the requested number or probability of signals, at most one exit between consecutive entries, exits strictly after their entry by at least the wait, and probabilities of zero and one are exact.",
  ["schedules", "inputs", "configurations"],
  "every seed, argument set, and every interleaving of seeded and unseeded calls before and between",
  "tests check one seed and one call order each",
  ["vectorbt/utils/random_.py", "vectorbt/signals/nb.py", "vectorbt/signals/generators.py", "vectorbt/signals/accessors.py", "vectorbt/data/custom.py", PN, PB],
  [("seeding", "vectorbt/utils/random_.py set_seed, set_seed_nb"), ("random generators", "vectorbt/signals/nb.py rand_*")],
  [("global NumPy and JIT generator state", "shared by every random function", "vectorbt/utils/random_.py")],
  ["generated arrays, call_seq, order records"])
p("C11", "Exchange downloads are complete, ordered and free of duplicates",
  "Downloading a time range from a paginated exchange feed returns exactly the bars the exchange holds in that range, once each and in time order with their own values, for any page limit, history start, timeframe and gap layout. Transient network errors up to the retry limit do not change the result, beyond it the error reaches the caller, and no unfinished result is returned as if it were complete. Requests are spaced by the configured delay and the number of requests is bounded by the number of pages.",
  ["fault_sequences", "inputs", "schedules"],
  "every history layout, page limit, range, timeframe and every schedule of transient errors, short pages and latency",
  "tests never contact a paginated exchange; downloads are skipped or use a synthetic source",
  ["vectorbt/data/custom.py", "vectorbt/utils/datetime_.py"],
  [("pagination and retry loops", "vectorbt/data/custom.py BinanceData.download, CCXTData.download")],
  [("next_start_ts", "pagination cursor", "vectorbt/data/custom.py")],
  ["BinanceData.download / CCXTData.download against a simulated exchange"])
p("C12", "Repeated data updates converge to the feed's true history",
  "After any sequence of updates of a data object, at any clock times and with feeds that revise their last bar, lag or skip updates, each symbol holds one row per timestamp in increasing order: rows the feed served again carry the newest value, earlier rows are unchanged, and nothing the feed served since the previous last row is missing. Symbols are aligned to a common index by the configured policy (fill missing, drop rows that an update does not have for every symbol, or raise), a failing update leaves the object unchanged, and updating never modifies the object it was called on.",
  ["histories", "fault_sequences", "inputs"],
  "every schedule of update times, bar revisions, failures and symbol-specific lags, and every alignment policy",
  "tests update a source once with a fixed array; convergence over repeated updates with overlap and failure is never exercised",
  ["vectorbt/data/base.py", "vectorbt/data/custom.py", "vectorbt/data/updater.py"],
  [("update and merge", "vectorbt/data/base.py Data.update"), ("alignment", "vectorbt/data/base.py Data.align_index, Data.align_columns")],
  [("data per symbol, download kwargs", "what an update starts from", "vectorbt/data/base.py")],
  ["Data.update(), Data.data, DataUpdater.update()"])
p("C13", "Scheduled jobs run exactly when due and never after cancellation",
  "Under any clock behaviour (slow jobs, jumps, long stalls), a scheduled job runs when and only when it is due, at most once per polling cycle, in the order due, its next run is computed from the run that happened, and it never runs in a later polling cycle after it has been cancelled, cleared, reached its deadline, or its manager has been stopped. Every schedule expression (interval, unit, weekday, start-day and time-of-day forms, tags) yields the same timetable as building the job step by step. A data updater stops cleanly when its job raises the cancellation error, other errors reach the caller in the foreground, and stopping the background manager ends it within one polling interval.",
  ["schedules", "fault_sequences", "histories"],
  "every job set, clock schedule, job duration, failure point, and stop or cancel point",
  "tests use real sleeps with one job and check counters; clock jumps, overlapping due times and cancellation mid-cycle are not reached",
  ["vectorbt/utils/schedule_.py", "vectorbt/data/updater.py"],
  [("scheduling loop", "vectorbt/utils/schedule_.py ScheduleManager.start/async_start"), ("async job runner", "vectorbt/utils/schedule_.py AsyncScheduler, AsyncJob"), ("updater", "vectorbt/data/updater.py DataUpdater")],
  [("jobs, next_run, last_run, async_task", "scheduler state", "vectorbt/utils/schedule_.py")],
  ["job run history under a simulated clock"])
p("C14", "Every broadcast reaches every subscribed chat exactly once",
  "After any history of start commands, duplicated or reordered chat-migration notices, restarts and send failures, the bot's subscriber list holds each subscribed chat once under its current identifier, and every broadcast is delivered exactly once to each of them that is reachable. A chat that blocked the bot does not stop delivery to the others, errors other than blocked or migrated chats reach the caller, and the list survives a restart from the persisted state.",
  ["fault_sequences", "schedules", "histories", "crash_points"],
  "every interleaving of subscriptions, migrations, blocks and broadcasts, every duplication or reordering of notices, and every restart point",
  "tests cannot contact Telegram; the bot's handlers and broadcast are untested",
  ["vectorbt/messaging/telegram.py"],
  [("subscriber registry and migration handling", "vectorbt/messaging/telegram.py TelegramBot.start_callback, chat_migration_callback, send, send_to_all")],
  [("chat_ids", "persisted subscriber list", "vectorbt/messaging/telegram.py")],
  ["messages received by the simulated Telegram server"])
p("C15", "The bot starts and stops cleanly under every interleaving",
  "For any interleaving of start, stop, sends, user commands, network failures and interrupts from several threads, the bot is polling exactly when it has been started and not stopped, with never more than one polling session at a time; stopping always ends polling within a bounded number of steps and releases a foreground start, and the bot may be started again afterwards. A failure while starting reaches the caller that started it and leaves nothing running, a failure while polling or shutting down never prevents stopping, and no call on the bot blocks forever.",
  ["schedules", "fault_sequences"],
  "every interleaving of control threads with the polling thread and every step at which start-up, polling or shut-down fails",
  "tests cannot start a bot; the lifecycle code is untested",
  ["vectorbt/messaging/telegram.py"],
  [("polling thread lifecycle", "vectorbt/messaging/telegram.py TelegramBot.start, stop, _polling_main")],
  [("running event, stop request, loop, thread", "lifecycle state", "vectorbt/messaging/telegram.py")],
  ["TelegramBot.start/stop/running under a controlled scheduler"])
p("C16", "Cached results are computed once and equal recomputation",
  "A cached property or method returns, from any number of threads in any interleaving, the value that recomputation would return; a cached property computes at most once per instance however many threads race, an attempt that raises caches nothing, and instances never share results. Disabling, white- or blacklisting by any documented condition decides exactly whether results are cached, clearing takes effect on the next read, and objects produced by copying or indexing never see results cached for another object.",
  ["schedules", "configurations", "fault_sequences", "histories"],
  "every thread interleaving of first reads, clears and failures, and every caching setting",
  "tests read cached attributes from one thread and check a few setting combinations",
  ["vectorbt/utils/decorators.py", "vectorbt/utils/config.py", "vectorbt/_settings.py"],
  [("cached_property, cached_method and should_cache", "vectorbt/utils/decorators.py")],
  [("cache slots per instance, caching settings", "what decides between compute and reuse", "vectorbt/utils/decorators.py")],
  ["calls to the wrapped function and returned values"])
p("C17", "Configuration histories behave like a map with checkpoints",
  "For any history of writes, updates, deletions, nested updates, copies, merges, checkpoints and resets, a configuration holds exactly what a plain nested dictionary under the same operations would, frozen keys can be changed but never added or removed, read-only configurations never change, and a rejected operation changes nothing. Reset returns the contents of the last checkpoint or creation, copies share only what the copy mode says, attribute and item access agree, and merging never modifies its inputs. Objects built from a configuration are equal after copy, and replacing some arguments keeps all the others.",
  ["histories", "configurations"],
  "every operation sequence over nested configurations and every combination of modes",
  "tests apply one or two operations to fixed dictionaries; aliasing between copies, checkpoints and nested children needs operation histories",
  ["vectorbt/utils/config.py", "vectorbt/_settings.py"],
  [("Config, copy_dict, update_dict, merge_dicts, Configured", "vectorbt/utils/config.py")],
  [("reset_dct, frozen_keys, readonly, nested, as_attrs", "per-config modes", "vectorbt/utils/config.py")],
  ["Config operations and resulting dictionaries"])
p("C18", "A saved object loads back equal; a failed load or save is never silent",
  "Every saveable object (configuration, data, indicator result, array wrapper, grouper or mapper, records, mapped array, portfolio) loads back equal to what was saved. An object that cannot be serialised leaves the existing file as it was. When storage fails, is full, or a crash leaves a truncated or partly written file, saving raises or the next load raises, loading never returns an object that differs from one that was saved, and a failed load into an existing configuration leaves that configuration as it was.",
  ["crash_points", "fault_sequences", "inputs"],
  "every object kind, every write and read call as a failure point, and every prefix of the file as the surviving content",
  "tests round-trip a few objects on a healthy disk",
  ["vectorbt/utils/config.py", "vectorbt/data/base.py", "vectorbt/records/base.py", PB],
  [("Pickleable, PickleableDict, Configured", "vectorbt/utils/config.py")],
  [("pickled configuration", "the durable representation", "vectorbt/utils/config.py")],
  ["save/load/dumps/loads/load_update over a simulated disk"])
p("C19", "Parallel execution gives the serial result, in order, or fails loudly",
  "Combining or applying over many parameter sets through the distributed back end returns the same values in the same order as serial execution, whatever order the workers finish in. A worker that fails, crashes or never receives its task surfaces as an error to the caller instead of a missing or shifted result, and the back end is shut down exactly when the caller asked for it.",
  ["schedules", "fault_sequences"],
  "every completion order, worker failure point and argument layout",
  "the distributed back end is not installed where tests run",
  ["vectorbt/base/combine_fns.py", "vectorbt/indicators/factory.py", "vectorbt/base/accessors.py"],
  [("ray_apply and its callers", "vectorbt/base/combine_fns.py")],
  (), ["apply_and_concat*, combine_and_concat, indicator run(use_ray=True)"])

p("C20", "Stop exits, chained signals, ranges and ranks follow the bar-by-bar rules",
  "For every feed and schedule of entries, generated stop exits (fixed, trailing, take profit, reversed, on one price or on OHLC) appear at exactly the bars, with the stop price and type, that walking the bars one at a time from each entry gives, under the documented wait, until-next, skip-until-exit, pick-first and open-safety rules; the chained form removes exactly the entries before the next exit. Indicators with many combinations give what each gives alone, and user choice functions are called once per range with that range, their errors and out-of-range choices reaching the caller. Ranges between signals and partitions, signal and partition ranks with resets, cleaning, n-th selection and counts equal their definition for every stream of signals.",
  ["fault_sequences", "histories", "inputs"],
  "every feed, entry schedule, stop setting per element and position of the signals",
  "tests use one five-bar mask and a few stop values",
  ["vectorbt/signals/nb.py", "vectorbt/signals/accessors.py", "vectorbt/signals/generators.py", "vectorbt/signals/factory.py"],
  [("generate_ex_nb, generate_enex_nb, stop_choice_nb, ohlc_stop_choice_nb, rank_nb, *_ranges_nb", "vectorbt/signals/nb.py")],
  (), ["signal accessors and stop indicators over a simulated feed"])

p("C21", "Stats and plots of an object never depend on each other or on caches",
  "Computing several metrics or subplots at once, in any order, repeatedly, with settings for one or all of them, after any reads of cached attributes and after metrics that raised, gives for each exactly what it gives alone on a fresh object that carries those settings itself, and nothing raises only because of its neighbours. What a portfolio metric or subplot shows is what the method of the portfolio it describes returns for the same grouping, column, type of returns and open-trade setting, aggregated as requested. Durations are numbers of bars times the fixed frequency of the object, given or inferred, and numbers of bars if its index has no fixed frequency.",
  ["histories", "configurations", "fault_sequences"],
  "every subset, order and repetition of metrics with every mix of global and per-metric settings",
  "tests call stats() once per setting on a fixed object",
  ["vectorbt/generic/stats_builder.py", "vectorbt/generic/plots_builder.py", "vectorbt/utils/attr_.py", "vectorbt/base/array_wrapper.py", "vectorbt/portfolio/base.py", "vectorbt/returns/accessors.py", "vectorbt/generic/accessors.py"],
  [("StatsBuilderMixin.stats", "vectorbt/generic/stats_builder.py"), ("AttrResolver.resolve_attr, resolve_self", "vectorbt/utils/attr_.py"), ("ArrayWrapper.freq, to_timedelta", "vectorbt/base/array_wrapper.py")],
  (), ["sequences of stats() and plots() calls on one object"])
p("C22", "Records stay one consistent table under every history of operations",
  "Every row of a table of records keeps its values, its column and its order under any sequence of column selections, masks, sorts, regroupings, filters, mappings and copies, each of which gives a new object and leaves all existing ones as they were. Counts, reductions, top and bottom picks, descriptions, value counts, wide tables and readable tables are what the rows say, per column or per group, with the stated result for columns without rows. A callback that raises, a mask of the wrong length, two rows in one cell or groups that clash are refused without changing anything, and reading something twice, with or without caches, gives the same.",
  ["histories", "inputs", "fault_sequences"],
  "every sequence of operations over tables with empty, interleaved and unsorted columns",
  "tests apply each operation once to one fixed table",
  ["vectorbt/records/base.py", "vectorbt/records/mapped_array.py", "vectorbt/records/col_mapper.py", "vectorbt/records/nb.py", "vectorbt/generic/ranges.py", "vectorbt/generic/drawdowns.py", "vectorbt/portfolio/orders.py", "vectorbt/portfolio/trades.py"],
  [("Records.indexing_func, apply_mask, sort, map", "vectorbt/records/base.py"), ("MappedArray.reduce, to_pd, top_n", "vectorbt/records/mapped_array.py"), ("record_col_map_select_nb", "vectorbt/records/nb.py")],
  (), ["sequences of operations on a table of records and its offspring"])

p("C23", "Each parameter combination of an indicator is computed as if run alone",
  "Every column of an indicator run over many parameter combinations holds what its own combination gives on its own input column, under lists, products, per-column runs, unique runs, in-place outputs, cached and raw results, and in every instance of run_combs. Column levels, parameter lists and mappers name that combination, hidden levels excepted, and selecting columns, rows or parameter values and comparing instances keep the two together. The function is called once per combination in order (once per distinct one if asked), and a failing call, lengths that do not broadcast or wrong outputs are refused. Inputs, parameter lists, hidden-level lists and the class itself stay as they were.",
  ["histories", "inputs", "fault_sequences", "configurations"],
  "every sequence of runs of one class, over kinds of parameters, settings and failing calls",
  "tests run fixed classes on a few settings each and never reuse a class after a failure",
  ["vectorbt/indicators/factory.py", "vectorbt/utils/params.py", "vectorbt/base/indexing.py", "vectorbt/base/index_fns.py", "vectorbt/base/combine_fns.py"],
  [("run_pipeline, build_columns", "vectorbt/indicators/factory.py"), ("IndicatorFactory.from_custom_func, from_apply_func", "vectorbt/indicators/factory.py"), ("ParamLoc", "vectorbt/base/indexing.py")],
  (), ["sequences of run, run_combs, use_raw, use_cache and selections on one class"])

p("C24", "Statistics, drawdowns and indicators of a feed follow from its bars",
  "Whatever arrives on a feed (late listings, gaps, stalls, spikes, delistings), each value computed from it bar by bar is the one its definition gives for that bar: a rolling, expanding or exponentially weighted minimum, maximum, mean or deviation looks at exactly the window that ends at the bar and counts only the values present, nothing is reported with fewer than the minimum number of values (a minimum nobody can reach gives missing values for expanding statistics), fills take the nearest known value, shifts and differences take the value that many bars away, and a crossing is reported the requested number of bars after it happened. User functions are called once per window, group, bin or column with its exact values, and what one raises reaches the caller. Reductions, grouped statistics, first positions of extremes, flattening and squeezing per group see exactly the values of their columns. Drawdown and range records come from one walk over the bars: the peak, the first lowest bar after it, and the bar back at the peak; one still running at the last bar is reported as active even if the last values are missing, and durations, coverage, masks and summary metrics follow from the records. Each built-in indicator equals its definition for each combination of parameters of a run. No call changes the feed.",
  ["inputs", "histories", "configurations"], "every feed with missing or unusual values, every window, minimum count, grouping and user function, and every sequence of such calls on feeds derived from one another",
  "tests compare each function on one five-row frame or one short price series",
  ["vectorbt/generic/nb.py", "vectorbt/generic/accessors.py", "vectorbt/generic/dispatch.py", "vectorbt/generic/drawdowns.py", "vectorbt/generic/ranges.py", "vectorbt/indicators/basic.py", "vectorbt/indicators/nb.py"],
  [("rolling, expanding and exponential kernels, find_ranges, get_drawdowns, crossed_above", "vectorbt/generic/nb.py"), ("GenericAccessor", "vectorbt/generic/accessors.py"), ("Drawdowns", "vectorbt/generic/drawdowns.py"), ("Ranges.coverage, to_mask", "vectorbt/generic/ranges.py"), ("indicator kernels", "vectorbt/indicators/nb.py")],
  (), ["sequences of statistics on one feed and its offspring"])

p("C25", "Metrics of a return stream equal their definitions on the bars they cover",
  "For every return stream (late listings, gaps, stalls, delistings, losses of everything), benchmark and set of options, each metric the returns accessor offers (total, annualized, volatility, Calmar, Omega, Sharpe, Sortino, downside risk, information ratio, beta, alpha, tail ratio, common-sense ratio, value at risk and its conditional form, captures, maximum drawdown) equals its published definition, and so does the deflated Sharpe ratio of all columns together. The rolling form at a bar equals the metric of the window that ends there, held against the same bars of the benchmark, and is missing with fewer bars than the minimum. Annualization follows the frequency of the stream and of the year, and options come from the call, else from the accessor's defaults, else from the settings. Returns made from values, cumulative returns, drawdowns and resampled returns agree with each other and compound to the same whole. A selection of bars and columns carries its own part of the benchmark, its defaults and its frequency along, and no call changes the stream or the benchmark.",
  ["inputs", "histories", "configurations"], "every return stream and benchmark with missing or extreme values, every option, window and minimum count, and every sequence of such calls on streams selected from one another",
  "tests compare each metric with a reference library on one series of ten returns",
  ["vectorbt/returns/nb.py", "vectorbt/returns/accessors.py", "vectorbt/returns/metrics.py", "vectorbt/returns/dispatch.py"],
  [("metric kernels and their rolling forms", "vectorbt/returns/nb.py"), ("ReturnsAccessor", "vectorbt/returns/accessors.py"), ("deflated_sharpe_ratio", "vectorbt/returns/metrics.py")],
  (), ["sequences of metrics on one stream and its offspring"])
p("C26", "Labels and splits cover exactly the bars their definitions name",
  "For every feed (late listings, gaps, stalls, spikes, delistings) and every combination of parameters of a run, each look-ahead indicator and label generator looks at exactly the bars its definition names: future means, deviations, minima and maxima cover the window that begins the waiting time after the bar; fixed and mean labels are the relative distance to the later price; local extrema are those a walk with the thresholds set at the last candidate confirms, with the last one pending; trend labels follow from the extrema around each bar in each of their modes; breakout labels give the first threshold crossed within the window. A threshold of zero is refused where extrema are sought. Every splitter (range, rolling, expanding, bounds by position or label, or one written by the user, which is called once with all positions) yields exactly the ranges asked for: of the length asked for, evenly spread when a number of splits is asked for, none shorter than the minimum, cut into sets of the lengths asked for from the left or from the right; sets of one split do not overlap and together cover it; what cannot be split so is refused. The split object carries the values and the index of its bars, shorter ranges padded with missing values, and its columns name the split, or the key given for it, and the original column. What a user splitter raises reaches the caller, and no call changes the feed.",
  ["inputs", "configurations", "histories"], "every feed with missing or unusual values, every threshold per bar and column, window, waiting time and mode; every splitter, number, length and set of lengths",
  "tests use one eight-row frame per generator and one eleven-row series per splitter",
  ["vectorbt/labels/nb.py", "vectorbt/labels/generators.py", "vectorbt/generic/splitters.py", "vectorbt/generic/accessors.py"],
  [("label kernels", "vectorbt/labels/nb.py"), ("splitters and split_ranges_into_sets", "vectorbt/generic/splitters.py"), ("GenericAccessor.split", "vectorbt/generic/accessors.py")],
  (), ["label runs and sequences of splits of one feed"])

# ---- pure functions of their input: not simulation targets
p("C30", "Broadcasting follows NumPy and pandas alignment rules",
  "Broadcasting any mix of scalars, arrays and pandas objects gives all outputs one common shape, index and columns, each element equal to the one NumPy broadcasting selects.",
  ["inputs", "configurations"], "every mix of shapes, indexes and broadcasting settings",
  "tests use a fixed matrix of small shapes",
  ["vectorbt/base/reshape_fns.py", "vectorbt/base/index_fns.py"], [("broadcast", "vectorbt/base/reshape_fns.py")])
p("C34", "The compiled and the Rust engine give identical results",
  "Every function that both engines implement returns the same values from both, or falls back when the Rust engine does not support the call.",
  ["inputs", "configurations"], "every dispatched function and argument set",
  "Rust tests are skipped unless the extension is installed",
  ["vectorbt/_engine.py", "rust"], [("dispatch", "vectorbt/_engine.py")])
p("C35", "Figures of standalone plotting functions draw the given data",
  "Every standalone plotting function and widget draws exactly the values, labels and markers passed to it.",
  ["inputs"], "every series and label", "tests only check that figures are created",
  ["vectorbt/generic/plotting.py"], [("Scatter, Bar, Heatmap, Gauge", "vectorbt/generic/plotting.py")])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
