"""The properties: statement, harness entries, bounds.  tools/gen.py writes
properties.jsonl and MANIFEST.json from this table; check.py runs it."""

COMMON = [
    "the program's instructions run from their real entry point, compiled from /repo's sources by rustc 1.70 at opt-level 2 with overflow checks (default features)",
    "the Solana runtime, SPL token and system program are a model (rust/world): balances, authorities, owners and account creation as specified; no fees, no frozen or delegated token accounts unless stated, logging is empty",
    "program derived addresses come from a mixing function instead of SHA-256; different seeds are taken to give different addresses",
    "anchor-lang, anchor-spl, borsh and the Rust standard library are executed as they are; the 'decimal' crate (not available offline) is replaced by rust/decimal, exact rounding down on 192-bit fixed-point numbers with 18 decimals",
    "the symbolic executor (engine/) and z3 are trusted; every path's model is also run natively and must observe the same values",
]
F = "programs/farming/src/"
A = "programs/amm/src/"
def E(*l, covers=("ok",), **kw): return [(n, dict(covers=list(covers), **kw)) for n in l]
def OR(*l, **kw): return E(*l, covers=("ok", "refused"), **kw)
def ATT(*l, **kw): return E(*l, covers=("tried", "right"), **kw)
def TRY(*l, **kw): return E(*l, covers=("tried",), **kw)
def an(files, mech, state=(), observe=()):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "observe_at": list(observe), "hook_needed": None}

P = {}
def prop(id, title, statement, over, text, why, anchors, harness, quick, bounds, outside, thorough=(), assumptions=(), technique="symbolic execution of the compiled instruction + SMT (z3), models replayed natively", note=""):
    P[id] = dict(title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=anchors,
                 harness=harness, quick=list(quick), thorough=list(thorough), bounds=bounds, outside=outside, assumptions=list(assumptions), technique=technique, note=note)

# --------------------------------------------------------------- farming
prop("F01", "Snapshots record the vault faithfully, in order and not too often",
     "Taking a snapshot succeeds exactly when the farm's minimum window (or the default when none is set) has passed since the last one. It appends the current slot and the current balance of the farm's own stake vault as the newest entry of the 1000-entry history, overwriting only the oldest. Nothing else about the farm changes and no other vault can be sampled.",
     ["inputs", "histories"], "every content of the history, every position of its newest entry, every vault balance, slot, window setting and passed account",
     "unit tests take a handful of snapshots in fresh farms; the wrap-around of a full history and the exact slot at which one becomes due need every position and every slot",
     an([F + "endpoints/take_snapshot.rs", F + "models/farm.rs"], [("take_snapshot", F + "models/farm.rs"), ("stake vault constraint", F + "endpoints/take_snapshot.rs")], [("snapshots", "ring buffer of 1000 snapshots and the index of the newest", F + "models/farm.rs")], ["farm account after take_snapshot"]),
     "hfarm", sum([OR("h_f01_step_%d" % i) for i in range(8)], []) + TRY("h_f01_accounts"),
     "slots and window up to 2^62; history of exactly 1000 entries, all 1000 positions of the newest entry, all entries symbolic",
     "slot numbers above 2^62")

prop("F02", "Looking up the snapshot history finds the right windows",
     "For any slot, the first snapshot taken after it is found whenever the history has one, and the snapshot windows listed for a farmer last updated at that slot are exactly those from the window containing the slot up to the open one, newest first without gaps. This holds wherever the newest entry sits in the circular history.",
     ["inputs", "histories"], "every content of a full history and every slot looked up, for the newest entry at every position",
     "the lookup over a wrapped, full history of 1000 entries is only sampled by a few unit tests with small hand-made histories",
     an([F + "models/farm.rs"], [("first_snapshot_after, get_window_snapshots_eligible_to_harvest", F + "models/farm.rs")], [("snapshots", "ring buffer of 1000 snapshots", F + "models/farm.rs")], ["result of the lookups"]),
     "hfint", sum([E("h_f02_window_%d" % i) for i in (0, 1, 2, 499, 500, 997, 998, 999)], []) + sum([E("h_f02_after_p%d" % i, covers=["some"], w=20) for i in range(8)], []),
     "all 1000 entries and the slot are arbitrary 64-bit values; newest entry at all 1000 positions for the first snapshot after a slot; at positions 0, 1, 2, 499, 500, 997, 998, 999 for the windows listed (all 1000 in the thorough tier)",
     "nothing within a full history of 1000 entries",
     thorough=sum([E("h_f02_window_p%d" % i, w=200) for i in range(8)], []),
     note="Calls the program's lookup functions directly (crate hfint), since no instruction exposes them.")

HV = [("update of the eligible harvest", F + "models/farmer.rs"), ("snapshot windows", F + "models/farm.rs")]
HS = [("calculate_next_harvest_from", "first slot not counted yet", F + "models/farmer.rs"), ("staked, vested, vested_at", "the farmer's deposit", F + "models/farmer.rs")]
HB = "slots up to 2^40, every order of update, deposit, snapshots and emission periods; "
prop("F03", "A deposit earns nothing until a snapshot taken strictly after it",
     "Tokens staked, or compounded into stake, count towards harvest only from the first snapshot taken in a slot later than the deposit, and from that snapshot on they always count. Updating harvest never changes the total deposited, and never moves the farmer's progress backwards, so no slot is ever counted twice because a deposit vested.",
     ["inputs", "histories"], "every slot of deposit, last update, snapshots, emission period and current slot",
     "whether a deposit is vested depends on the relative order of five slots; tests pick a few orders, and the one in which an update saw the new snapshot before the deposit vested was wrong",
     an([F + "models/farmer.rs", F + "endpoints/update_eligible_harvest.rs"], HV + [("check_vested_period_and_update_harvest", F + "models/farmer.rs")], HS, ["farmer account after an update"]),
     "hfarm", E("h_f03_s1p1") + E("h_f03_s2p1", w=22) + E("h_f03_s3p1", w=70) + E("h_f03_long", "h_f03_late"),
     HB + "one to three snapshots of which the newest may postdate the deposit, one emission period, deposits 0 or 4 staked + 4 vested (fixed amounts); a history of 12 windows and ten periods (which touch, leave gaps and windows without stake) at fixed slots, with any slot of deposit and last update in one window and of the current update",
     "more than three distinct snapshot windows in one update at symbolic slots; other amounts (see F04)")

prop("F04", "Harvest counts every slot exactly once at the share held",
     "An update credits the farmer, for each harvest of the farm, with the tokens emitted in every slot between its last update and now, times its share of the stake recorded by the snapshot window of that slot, rounded down per window. Every slot is counted at most once whatever the sequence of updates, and none is skipped; windows with no stake earn nothing. It never fails, and other harvests, mints and the deposit are unaffected.",
     ["inputs", "histories"], "every slot of last update, snapshots, periods and current slot; every stake, snapshot total and emission rate for fixed slots",
     "the accrued amount depends on how up to a thousand windows, ten periods and the last update overlap; tests check single hand-computed overlaps",
     an([F + "models/farmer.rs", F + "models/farm.rs", F + "endpoints/update_eligible_harvest.rs"], HV, HS, ["farmer account after an update"]),
     "hfarm", E("h_f04_s1p1", "h_f04_s2p1", "h_f04_s2p1_wrap", "h_f04_s3zero", "h_f04_none", "h_f04_round1", "h_f04_round2", "h_f04_round3", "h_f04_am1", "h_f04_mints") + E("h_f04_s3p1", w=14) + E("h_f04_s2p2", w=37) + E("h_f04_s1p3", w=70) + E("h_f04_long", "h_f04_full", "h_f04_middle") + E("h_f04_long2", w=8),
     HB + "up to 3 snapshot windows x 1 period, 2 x 2 and 1 x 3, newest entry of the history at positions 0, 1, 2, 3 and 999, history partly and completely filled; fixed stakes and rates (dividing evenly and not); any stake, total and rate up to 2^40 for fixed slots (1 window in the quick tier, 2 windows in the thorough one); up to ten harvest mints in any of four farmer tables; a history of 12 windows and ten periods (which touch, leave gaps and windows without stake) at fixed slots, one and two harvests, last update and current slot anywhere in it; a full history of 1000 windows and three periods with the last update in any of two of the oldest or of twenty in the middle (thorough: hundred of the newest)",
     "more windows or periods in a single update, all at symbolic slots; symbolic slots and symbolic amounts at the same time",
     thorough=E("h_f04_hundred", w=100) + E("h_f04_am2", w=100) + E("h_f04_am2p", w=120))

prop("F05", "Farmers together are never owed more than was emitted",
     "The harvest credited to all farmers of a farm for any stretch of slots never exceeds the tokens the farm emits in those slots, provided their counted stakes do not exceed the total the snapshot recorded. So the harvest vault, which is funded with the whole emission, can always pay every claim.",
     ["inputs", "histories"], "every split of a snapshot's total among two to four farmers, every current slot, snapshot slot, emission period and time of each farmer's last update",
     "rounding up anywhere in the share calculation overdraws the vault only for particular stakes and slots",
     an([F + "models/farmer.rs"], HV, HS, ["farmer accounts after updates"]),
     "hfarm", E("h_f05_st3", "h_f05_st1000", "h_f05_stbig", "h_f05_st2") + E("h_f05_slot3", "h_f05_slot7", "h_f05_slot11", "h_f05_slot2", "h_f05_hist", w=7) + E("h_f05_three", "h_f05_four", "h_f05_histm"),
     "two farmers (three and four for totals 1000 and 1000003); all stakes for snapshot totals 3, 1000, 10^12-1 and the pair 7, 11 at fixed slots; all slots up to 2^40 for totals 3, 7, 11 and the pair 3, 7 at fixed stakes; three and four farmers over 12 windows and ten periods at fixed slots, with any last update (of all, and of one of them) and any current slot",
     "five or more farmers; symbolic stakes, totals and slots at the same time")

prop("F06", "Harvest periods are funded exactly and never rewrite the past",
     "Announcing a harvest period moves exactly slots times tokens per slot into the farm's harvest vault, less what was paid for a not yet started period it replaces (refunding the admin if that was more). It is accepted only if it starts now or later, after every period which started already, lasts at least one slot, and no period that recorded snapshots may still refer to is dropped; otherwise nothing changes. Periods stay sorted without overlap and running or past ones are never altered.",
     ["inputs", "histories"], "every start, length and rate, every slot, every calendar of up to ten periods whose newest may still be scheduled, every vault and wallet balance and every passed account",
     "replacement, refund and the full calendar depend on the relative order of many slots; tests cover few of them, and the history limit was only active in debug builds",
     an([F + "endpoints/new_harvest_period.rs", F + "models/farm.rs"], [("handle", F + "endpoints/new_harvest_period.rs"), ("new_harvest_period", F + "models/farm.rs")], [("harvests[].periods", "the ten latest emission periods, newest first", F + "models/farm.rs")], ["farm account, harvest vault, admin wallet"]),
     "hfarm", sum([OR("h_f06_n" + n) for n in "0 1 2 3 4 5 6 7 8 9 10 1s 2s 3s 4s 5s 6s 7s 8s 9s 10s".split()], []) + ATT("h_f06_accounts"),
     "calendars of 0 to 10 periods, of which the newest may be scheduled; slots, lengths and rates up to 2^30, any balances up to 2^63",
     "rates and lengths above 2^30")

prop("F07", "In every history vaults cover all deposits, harvests and snapshots",
     "However instructions follow one another, the stake vault holds at least all farmers' deposits and the harvest vaults at least all harvest credited to them, so each of them can always be paid. The stakes which count towards a snapshot never exceed the total it recorded: a snapshot covers all stake deposited before it, and no instruction makes more stake count towards a snapshot which was taken before, or goes back to slots already counted.",
     ["histories", "schedules"], "every state in which this is so (any stakes, deposits, balances, slots, two newest snapshots) and every instruction of a farmer, with any arguments, or snapshot; by induction every history",
     "tests run a few short histories; solvency is a property of all of them, and unlimited histories are out of reach of any test",
     an([F + "models/farmer.rs", F + "models/farm.rs", F + "endpoints"], HV + [("unstake, add_to_vested, claim_harvest", F + "models/farmer.rs"), ("take_snapshot", F + "models/farm.rs")], HS, ["farm, farmer, stake vault and harvest vault after each instruction"]),
     "hfarm", OR("h_f07_start", "h_f07_claim", "h_f07_airdrop", "h_f07_snapshot", "h_f07_close", w=8) + OR("h_f07_stop", w=60) + E("h_f07_update", "h_f07_until", "h_f07_compound", "h_f07_source", "h_f07_target", w=14),
     "one instruction from any state (induction); amounts up to 2^60, slots up to 2^40; two snapshots still to be counted, older ones only where snapshots are taken; the farmers' harvest without running emission periods (emission is F04 and F05, periods F06)",
     "more than two snapshots between a farmer's last update and the instruction; admin's instructions (F06, F08, F09 show that they touch neither stakes nor deposits), creation (F16)",
     note="An inductive invariant: together with F05 (emission is shared by the counted stakes) it gives solvency of the farm over unlimited histories.")

prop("F08", "A harvest is added once, removed only when empty",
     "Adding a harvest creates an empty vault owned by the farm for a mint the farm does not harvest yet, starts without emission periods and takes no other harvest's place; it fails when the table is full or the mint is known. Removing one requires its vault to be empty, closes the vault to the admin and leaves every other harvest untouched.",
     ["inputs", "configurations"], "every admin-signed request over eight (adding) and five (removing) table layouts, any remaining balance, any contents of the other harvests and any passed account",
     "tests add and remove one harvest in an otherwise empty farm",
     an([F + "endpoints/add_harvest.rs", F + "endpoints/remove_harvest.rs", F + "models/farm.rs"], [("add_harvest", F + "models/farm.rs"), ("remove_harvest", F + "endpoints/remove_harvest.rs")], [("harvests", "table of ten harvests", F + "models/farm.rs")], ["farm account, harvest vault"]),
     "hfarm", OR("h_f08_add", "h_f08_remove") + ATT("h_f08_accounts"),
     "tables with 0 to 10 harvests in 8 and 5 layouts; any vault balance; 12 ways of passing a wrong account",
     "the other layouts of the table")

prop("F09", "Only a farm's admin changes its settings",
     "Setting the snapshot window, adding or removing a harvest, announcing a harvest period, whitelisting or dewhitelisting a compounding target and handing the farm over succeed exactly when the farm's current admin signed, and change nothing but that setting of that farm. The admin of another farm has no say.",
     ["inputs", "configurations"], "every pair of recorded admin and signing address (any 32 bytes), signed or not, for each of the seven settings, and every wrong account listed",
     "tests try one wrong signer for some of the endpoints",
     an([F + "endpoints/set_farm_owner.rs", F + "endpoints/set_min_snapshot_window.rs", F + "endpoints/add_harvest.rs", F + "endpoints/remove_harvest.rs", F + "endpoints/new_harvest_period.rs", F + "endpoints/whitelist_farm_for_compounding.rs", F + "endpoints/dewhitelist_farm_for_compounding.rs"],
        [("admin checks", F + "endpoints/")], [("admin", "the farm's admin", F + "models/farm.rs")], ["result of the instruction, farm account"]),
     "hfarm", OR("h_f09_authority") + ATT("h_f09_accounts"),
     "one representative farm and request per setting; addresses are arbitrary 32-byte values different from the other accounts' of the instruction; 32 ways of passing a wrong account",
     "addresses that coincide with another account of the same instruction")

prop("F10", "Staking credits exactly the tokens moved into the stake vault",
     "Starting to farm succeeds exactly when the wallet's owner signs and the wallet holds the (positive) amount; it moves exactly that amount into the farm's own stake vault and credits the farmer with it as a deposit made in the current slot. Harvest for the slots so far is counted first, at the stake held until then.",
     ["inputs", "histories"], "every amount, wallet, vault and farmer balance over 64 bits, every slot order for the harvest counted first, every wrong account listed",
     "the endpoint runs only in the integration tests, with a few amounts",
     an([F + "endpoints/start_farming.rs", F + "models/farmer.rs"], [("handle", F + "endpoints/start_farming.rs"), ("add_to_vested", F + "models/farmer.rs")], HS, ["farmer account, stake wallet, stake vault"]),
     "hfarm", OR("h_f10_amounts") + ATT("h_f10_accounts") + E("h_f10_s1", "h_f10_s1v", "h_f10_long"),
     "any 64-bit amounts with an up-to-date farmer; all slots up to 2^40 with one snapshot, one period and fixed stakes, and 12 windows and ten periods at fixed slots; 15 ways of passing a wrong account",
     "two or more snapshot windows at once at symbolic slots (see F03, F04)")

prop("F11", "Unstaking pays out exactly the stake, never more than deposited",
     "Stopping to farm succeeds whenever the farmer's owner signs and asks for a positive amount; it pays that amount or, if less, all of the farmer's deposit from the farm's own stake vault, taking unvested tokens first. Nobody but the owner can take stake out, and harvest for the slots so far is counted first.",
     ["inputs", "histories"], "every amount and balance over 64 bits, every slot order for the harvest counted first, every wrong account listed",
     "the endpoint runs only in the integration tests, with a few amounts",
     an([F + "endpoints/stop_farming.rs", F + "models/farmer.rs"], [("handle", F + "endpoints/stop_farming.rs"), ("unstake", F + "models/farmer.rs")], HS, ["farmer account, stake wallet, stake vault"]),
     "hfarm", OR("h_f11_amounts") + ATT("h_f11_accounts") + E("h_f11_s1", "h_f11_s1v", "h_f11_long"),
     "any 64-bit amounts such that the vault holds the farmer's deposit; all slots up to 2^40 with one snapshot, one period and fixed stakes, and 12 windows and ten periods at fixed slots; 17 ways of passing a wrong account",
     "two or more snapshot windows at once at symbolic slots (see F03, F04)")

prop("F12", "Claiming pays each accrued harvest once, to the owner's choice",
     "A claim signed by the farmer's owner pays exactly the accrued tokens of every harvest vault listed into the wallet given next to it and clears them, so a vault listed twice pays once; harvests not listed are kept and the stake is untouched. Only vaults of that farm pay, and only wallets of the same mint receive.",
     ["inputs", "configurations"], "every accrued amount and balance, six ways of listing vaults and wallets, every wrong account listed",
     "the endpoint runs only in the integration tests",
     an([F + "endpoints/claim_eligible_harvest.rs"], [("handle", F + "endpoints/claim_eligible_harvest.rs")], [("harvests", "tokens accrued per mint", F + "models/farmer.rs")], ["farmer account, harvest vaults, wallets"]),
     "hfarm", OR("h_f12_amounts") + E("h_f12_many", w=18) + ATT("h_f12_accounts"),
     "two harvests, up to two vault-wallet pairs, with every signer; ten harvests, five lists of up to twenty pairs (all, reversed, some, repeated); amounts up to 2^60; farmer up to date; 14 ways of passing a wrong account",
     "other lists of pairs than the eleven tried")

prop("F13", "Compounding moves exactly the harvest into stake of the same farmer",
     "Compounding, which anyone may trigger, moves exactly the farmer's accrued harvest in the target farm's stake mint from the source farm's harvest vault to the target farm's stake vault and credits the same user's farmer there as a deposit made now; the harvest of both farmers is counted first at the stake held until then. It needs an entry whitelisting this source for this target.",
     ["inputs", "histories", "configurations"], "every accrued amount, every slot of the target farmer's deposit, last update, snapshot and current slot, every whitelist entry among two farms, every wrong account listed",
     "integration tests compound between freshly created farmers; a target farmer with vested, not yet counted stake was miscounted",
     an([F + "endpoints/compound_same_farm.rs", F + "endpoints/compound_across_farms.rs", F + "endpoints/whitelist_farm_for_compounding.rs"], [("handle", F + "endpoints/compound_same_farm.rs"), ("handle", F + "endpoints/compound_across_farms.rs"), ("whitelist address", F + "endpoints/whitelist_farm_for_compounding.rs")], HS, ["farmer accounts, vaults"]),
     "hfarm", E("h_f13_s1", "h_f13_s1v", "h_f13_long", "h_f13_same", "h_f13_across") + ATT("h_f13_accounts") + OR("h_f13_whitelist"),
     "amounts up to 2^60, slots up to 2^40, one snapshot and one period for the farmer whose stake changes, and 12 windows and ten periods at fixed slots for compounding in one farm; fixed stakes; 46 ways of passing a wrong account",
     "two or more snapshot windows at once at symbolic slots (see F03, F04)")

prop("F14", "Farmers close only empty and by their owner; airdrops credit exactly",
     "A farmer account is closed only by its owner, only while it holds neither stake nor harvest, and its rent goes to the owner. An airdrop, for a harvest the farmer knows, moves exactly the given tokens from a signing wallet owner into the farm's vault of that harvest and credits exactly them.",
     ["inputs", "configurations"], "every balance over 64 bits, every signer address, every wrong account listed",
     "tests close one empty and one full farmer; nothing runs an airdrop",
     an([F + "endpoints/close_farmer.rs", F + "endpoints/airdrop.rs"], [("handle", F + "endpoints/close_farmer.rs"), ("handle", F + "endpoints/airdrop.rs")], [("harvests", "tokens accrued per mint", F + "models/farmer.rs")], ["farmer account, wallet, vault"]),
     "hfarm", OR("h_f14_close", "h_f14_airdrop") + ATT("h_f14_accounts"),
     "any 64-bit amounts; harvest at three of the ten places of the table; 19 ways of passing a wrong account",
     "the other places of the table")

prop("F15", "Updating up to a named slot counts those slots and no more",
     "A partial update up to any named slot always succeeds, credits exactly what a full update would credit for the slots it counts, and leaves the rest to later updates; a slot in the future counts as the current one. Splitting an update therefore never changes or repeats what is credited.",
     ["inputs", "histories"], "every named slot, every slot of last update, deposit, snapshots, period and current slot",
     "tests split one update at a hand-picked slot",
     an([F + "endpoints/update_eligible_harvest.rs", F + "models/farmer.rs"], HV, HS, ["farmer account after a partial update"]),
     "hfarm", E("h_f15_s1") + E("h_f15_s2", w=13) + E("h_f15_s2v", w=42) + E("h_f15_long", "h_f15_longv", w=8),
     HB + "one or two snapshots, one period, fixed stakes with and without a deposit that vests on the way; a history of 12 windows and ten periods (which touch, leave gaps and windows without stake) at fixed slots, any slot named, any last update and current slot",
     "three or more snapshot windows in one partial update, all at symbolic slots")

prop("F16", "Farms and farmers are created empty, once, for the right owner",
     "Creating a farm needs its admin's signature and a fresh account, and yields no harvests, no snapshots and an empty stake vault owned by the farm for the given mint. Creating a farmer works once per user and farm, whoever pays, and yields no stake and no harvest, with every harvest of the farm listed; an existing farmer is never replaced.",
     ["inputs", "configurations"], "every signer address, account type tag, mint supply and slot, every wrong account listed",
     "tests create a few farms and farmers with correct accounts",
     an([F + "endpoints/create_farm.rs", F + "endpoints/create_farmer.rs"], [("handle", F + "endpoints/create_farm.rs"), ("handle", F + "endpoints/create_farmer.rs")], [], ["farm, farmer and vault accounts"]),
     "hfarm", OR("h_f16_farm", "h_f16_farmer") + ATT("h_f16_accounts"),
     "one farm layout with eight harvests for the farmer; 19 ways of passing a wrong account",
     "other layouts of the farm's harvests")

# ------------------------------------------------------------------ AMM
RS = [("reserves", "tokens, mint and vault of each of the pool's reserves", A + "models/pool.rs")]
prop("A01", "Pools are created only from safe vaults, mint and toll wallet",
     "A pool is created exactly when its admin and its own fresh account sign, it has two to four free vaults (no delegate, no close authority, not frozen, owned by the pool's signer) of different mints, the LP mint is controlled by the pool's signer and has no freeze authority, the toll wallet belongs to the program's toll authority, and vaults hold tokens exactly if LP tokens exist. It records those accounts, takes no fee, and uses the stable curve exactly when an amplifier is given.",
     ["inputs", "configurations"], "every signer and owner address, balance, supply, flag of every vault and of the mint, any amplifier, none to six vaults with every repetition of mints listed",
     "tests check a few rejected configurations one at a time",
     an([A + "endpoints/create_pool.rs", A + "models/pool.rs"], [("handle", A + "endpoints/create_pool.rs")], RS, ["pool account after create_pool"]),
     "hamm", OR("h_a01_two", "h_a01_three", "h_a01_four", "h_a01_count") + ATT("h_a01_accounts"),
     "all addresses symbolic (32 bytes), all amounts 64 bits; 13 lists of vault mints; 21 ways of passing a wrong account",
     "other lists of mints")

prop("A02", "Deposits take balanced amounts within limits and never dilute",
     "A deposit takes from the depositor's wallets at most the maximum named for each token, at least one of each, moving wallet, vault and reserve by the same amount. It mints LP tokens to the depositor whose share of the pool is never more than the share of any token deposited, and none are minted for nothing; a first deposit is taken whole and mints its smallest amount. Only the pool's own vaults are credited, and a token list or account list that does not name every reserve once is refused.",
     ["inputs", "configurations"], "every maximum named and wallet balance, ranges of reserves and supplies, every wrong account, limit list and vault pairing listed",
     "unit tests deposit a dozen fixed amounts; rounding of the ratio and of the amounts took more than the maximum, and diluted the others, for other amounts",
     an([A + "endpoints/deposit_liquidity.rs", A + "models/pool.rs"], [("handle", A + "endpoints/deposit_liquidity.rs"), ("deposit_tokens, get_deposit_ratio, get_eligible_lp_tokens", A + "models/pool.rs")], RS, ["pool account, LP supply, wallets and vaults after deposit_liquidity"]),
     "hamm", OR("h_a02_first2", "h_a02_first3", "h_a02_first4", "h_a02_two", "h_a02_low", "h_a02_sup", "h_a02_fix", "h_a02_three", time=300) + OR("h_a02_big", "h_a02_bigf", time=500) + OR("h_a02_order2", "h_a02_order3", "h_a02_order4", "h_a02_ordert", time=300) + ATT("h_a02_accounts") + TRY("h_a02_limits", "h_a02_pairs"),
     "first deposits: all amounts below 2^63, two to four reserves; two reserves: any up to 10^10 with a supply of 19 to 2^40 and maxima to 2^50, or 2^35 to 2^36 each with a supply from 2^20 to 2^21, and fixed reserves of 2^35 and 2^36 with a supply of 2^20 to 2^40; three reserves: fixed, any supply to 2^40; limits and accounts in every order of two, four of three and of four: all first deposits, one pool of three later on; constant product curve (the stable curve only adds the invariant, A12)",
     "four reserves in later deposits with symbolic supply (thorough), reserves above 2^36, acceptance of later deposits", 
     thorough=OR("h_a02_tri", "h_a02_four", time=800))

prop("A03", "Redeeming pays exactly the share of the LP tokens burned",
     "Redeeming succeeds whenever the user holds the LP tokens named and asks for no more than their share; it burns exactly those and pays from each of the pool's vaults the share they stand for, rounded down, never less than the minimum named and never more than the share, moving wallet, vault and reserve by the same amount. Redeeming all LP tokens pays out all reserves.",
     ["inputs", "configurations"], "every amount of LP tokens, supply, balance, minimum and reserve, every wrong account, limit list and vault pairing listed",
     "unit tests redeem a few fixed amounts",
     an([A + "endpoints/redeem_liquidity.rs", A + "models/pool.rs"], [("handle", A + "endpoints/redeem_liquidity.rs"), ("redeem_tokens", A + "models/pool.rs")], RS, ["pool account, LP supply, wallets and vaults after redeem_liquidity"]),
     "hamm", OR("h_a03_two", "h_a03_three", "h_a03_four", time=300) + OR("h_a03_order2", "h_a03_order3", "h_a03_order4", time=300) + ATT("h_a03_accounts") + TRY("h_a03_limits", "h_a03_pairs"),
     "two to four reserves of up to 10^18, supply below 2^63, all other amounts 64 bits, limits and accounts in every order of two, four of three and of four (reserves up to 2^40 and a fixed supply there); constant product curve (the stable curve only adds the invariant, A12)",
     "reserves above 10^18, supplies of 2^63 and more")

prop("A04", "Depositing and redeeming at once never makes a profit",
     "Redeeming right after a deposit the LP tokens it minted always succeeds and returns of every token at most what was deposited, so no sequence of deposits and redemptions takes value from other depositors; redeeming a first deposit returns all of it.",
     ["inputs", "histories"], "every maximum named, with reserves symbolic for fixed supplies or fixed",
     "tests round-trip a few amounts, and rounding that favours the depositor shows only for some",
     an([A + "endpoints/deposit_liquidity.rs", A + "endpoints/redeem_liquidity.rs", A + "models/pool.rs"], [("deposit_tokens, redeem_tokens", A + "models/pool.rs")], RS, ["wallets after both instructions"]),
     "hamm", E("h_a04_first", "h_a04_fix", "h_a04_near", "h_a04_three", "h_a04_sup", "h_a04_one", time=400) + E("h_a04_odd", time=500),
     "two instructions; first deposits up to 10^18 of each token; two reserves up to 2^30 with supplies of 7, 1000, 999983; fixed reserves of two and three tokens with fixed supplies and maxima to 2^40",
     "symbolic supplies (for those A02 and A03 together imply it), longer sequences",
     thorough=E("h_a04_tri", "h_a04_big", time=800))

prop("A06", "Swaps conserve tokens and never shrink the product of reserves",
     "A swap moves exactly the tokens sold into the sell vault and the tokens bought out of the buy vault, changes the pool's two reserves by the same amounts and nothing else of the pool, never empties a reserve and never lowers the product of the two reserves on the constant product curve, whatever the fee.",
     ["inputs", "configurations"], "every reserve, amount sold, fee and balance within the bounds",
     "tests swap a few amounts; rounding the wrong way loses single tokens for particular reserves only, and did for reserves above 10^18",
     an([A + "endpoints/swap.rs", A + "models/pool.rs", A + "math/swap_equation.rs"], [("handle", A + "endpoints/swap.rs"), ("swap, calculate_swap", A + "models/pool.rs")], RS, ["pool account, wallets and vaults after swap"]),
     "hamm", OR("h_a06_two", "h_a06_back", "h_a06_three", "h_a06_four", "h_a06_symfee", "h_a06_fee", "h_a06_pairs2", "h_a06_pairs3", "h_a06_pairs4", time=400) + OR("h_a06_max", time=700),
     "without fee: two, three and four reserves of any 63-bit amounts, any amount sold; with a fee: reserves up to 2^32 at 0.3%, fixed reserves with any fee, or any amount up to 2^40 at 1%, and a fixed swap at 1% of any reserve for any other in pools of two, three and four kept in every order (8 orders of four); a stable pool of two, 100 amounts sold at 1%",
     "fees with larger symbolic reserves")

prop("A07", "Swaps pay exactly the curve's price after fee, or at least the limit",
     "A swap on the constant product curve sells exactly the (positive) amount named and pays exactly what the curve pays for it less the fee, the fee being the pool's share of the amount sold, rounded up; it fails rather than pay less than the minimum named, and succeeds whenever the user has the tokens, the curve pays the minimum and the amount is smaller than the reserve sold into. Only the user's signature, the pool's own vaults and the tokens' own wallets are accepted.",
     ["inputs", "configurations"], "every reserve, amount sold, minimum, fee and balance within the bounds, every wrong account listed",
     "tests compare a few swaps against hand-computed amounts",
     an([A + "endpoints/swap.rs", A + "models/pool.rs", A + "math/swap_equation.rs"], [("calculate_swap_fee", A + "endpoints/swap.rs"), ("swap, calculate_swap", A + "models/pool.rs")], RS, ["wallets after swap"]),
     "hamm", OR("h_a07_two", "h_a07_back", "h_a07_three", "h_a07_four", "h_a07_symfee", "h_a07_fee", "h_a07_pairs2", "h_a07_pairs3", "h_a07_pairs4", time=400) + OR("h_a07_max", time=700) + ATT("h_a07_accounts"),
     "without fee: two, three and four reserves of any 63-bit amounts, any amount sold; with a fee: reserves up to 2^32 at 0.3%, fixed reserves with any fee, or any amount up to 2^40 at 1%, and a fixed swap at 1% of any reserve for any other in pools of two, three and four kept in every order (8 orders of four); every wrong account listed",
     "fees with larger symbolic reserves")

prop("A08", "The swap fee is set by the pool's admin only and capped at 1%",
     "The swap fee of a pool changes exactly when the pool's admin signs and asks for at most one per cent; it is then stored as given and nothing else about the pool changes.",
     ["inputs", "configurations"], "every fee, signer, admin, pool of two to four reserves and curve",
     "tests set a few fees",
     an([A + "endpoints/set_pool_swap_fee.rs", A + "consts.rs"], [("handle", A + "endpoints/set_pool_swap_fee.rs")], [("swap_fee", "parts per million of the amount sold", A + "models/pool.rs")], ["pool account after set_pool_swap_fee"]),
     "hamm", OR("h_a08_fee") + ATT("h_a08_accounts"),
     "all 64-bit amounts and 32-byte addresses; 5 ways of passing a wrong account",
     "none known")

prop("A09", "Discounts are granted by their authority and apply until they end",
     "A discount is granted or replaced for a user exactly when the discount settings' authority signs, it ends after the current slot and is at most the whole fee; nobody else's changes. Swaps charge a user the pool's fee less their own discount exactly while the discount has not ended, and the full fee otherwise.",
     ["inputs", "schedules", "configurations"], "every discount, last slot, current slot, signer and authority; every amount sold within the bounds; every wrong account listed",
     "tests put a few discounts and swap with one",
     an([A + "endpoints/put_discount.rs", A + "endpoints/swap.rs", A + "models/discount.rs"], [("handle", A + "endpoints/put_discount.rs"), ("calculate_swap_fee", A + "endpoints/swap.rs"), ("does_apply", A + "models/discount.rs")], [("amount, valid_until", "part of the fee let off and last slot of the discount", A + "models/discount.rs")], ["discount account; wallets after swap"]),
     "hamm", OR("h_a09_put") + ATT("h_a09_accounts") + E("h_a09_swap", "h_a09_other", covers=("ok", "refused", "discount"), time=500),
     "granting: all values; swaps: two pools with fixed reserves at 0.3% and 1%, any discount and slots, any amount up to 2^40 and 2^20",
     "discounted swaps with symbolic reserves")

prop("A10", "The program's toll is a third of the fee, minted to its wallet",
     "Every swap mints LP tokens to the pool's toll wallet and to nobody else, worth a third of the fee charged: no more than that third, and less only by rounding to whole tokens and whole LP tokens.",
     ["inputs", "configurations"], "every supply, fee or amount sold with the others fixed, and reserves with a fixed supply",
     "tests check the toll of a few swaps",
     an([A + "endpoints/swap.rs", A + "consts.rs", A + "models/pool.rs"], [("calculate_toll_in_lp_tokens", A + "endpoints/swap.rs"), ("deposit_tokens", A + "models/pool.rs")], RS, ["LP supply, toll wallet after swap"]),
     "hamm", OR("h_a10_sup", "h_a10_sup3", "h_a10_sup4", "h_a10_small", "h_a10_fee", "h_a10_pairs2", "h_a10_pairs3", "h_a10_pairs4", time=400) + OR("h_a10_fix", "h_a10_max", time=700) + OR("h_a12_swapt", w=25, time=400),
     "supply up to 2^50 with fixed amounts in pools of two, three and four; supply to 2^30 and amount to 2^32 with fixed reserves; reserves, amount up to 2^20 with a fixed supply; every fee with fixed reserves; every amount to 2^40 with fixed reserves at 1%; a fixed swap at 1% of any reserve for any other in pools of two, three and four kept in every order (8 orders of four); a stable pool of two, 100 amounts sold at 1%",
     "reserves and supply symbolic at once above 2^20")

prop("A11", "Toll authority and discount settings are set once, by the upgrader",
     "The program's toll and discount settings accounts are created only with the signature of the program's upgrade authority, as recorded in the program's own data account, store the authority given, and are never replaced once they exist.",
     ["inputs", "configurations"], "every signer, upgrade authority, program data address and new authority, every wrong account listed",
     "tests cannot upgrade-deploy the program and create the accounts once",
     an([A + "endpoints/create_program_toll.rs", A + "endpoints/create_discount_settings.rs"], [("handle", A + "endpoints/create_program_toll.rs"), ("handle", A + "endpoints/create_discount_settings.rs")], [("authority", "who gets the toll, who grants discounts", A + "models/program_toll.rs")], ["the two accounts"]),
     "hamm", OR("h_a11_toll", "h_a11_settings") + ATT("h_a11_accounts"),
     "all addresses symbolic; every wrong account listed",
     "none known")

prop("A12", "Stable pools keep their invariant true and pay what the curve pays",
     "After every deposit, redemption and swap a stable pool records the invariant of its reserves, within one token; balanced pools can always be deposited to and redeemed from. A swap never costs the pool any of its invariant and pays the trader what the curve pays, within two tokens, whenever less is sold than the reserve holds.",
     ["inputs", "configurations"], "every amount sold from one token to a whole reserve in thirteen pools, every first deposit that is balanced, amounts near balance for whole instructions",
     "unit tests check a dozen amounts, and neither that balanced pools work nor that the invariant recorded is that of the reserves",
     an([A + "math/stable_curve_invariant.rs", A + "math/swap_equation.rs", A + "models/pool.rs"], [("compute", A + "math/stable_curve_invariant.rs"), ("update_curve_invariant, calculate_swap", A + "models/pool.rs")], [("invariant", "invariant of the stable curve for the reserves", A + "models/pool.rs")], ["pool account after deposit_liquidity, redeem_liquidity, swap; result of Pool::swap"]),
     "hamm", E("h_a12_two", "h_a12_three", "h_a12_four", "h_a12_big", "h_a12_price", "h_a12_price1", "h_a12_pricem", "h_a12_priceb", "h_a12_price3", "h_a12_price4", "h_a12_priceh", "h_a12_priceh2", "h_a12_priceh3", "h_a12_priceh4", "h_a12_pricex", "h_a12_pricex3", "h_a12_pricex4", "h_a12_redbal", "h_a12_redall", time=300) + OR("h_a12_swap", "h_a12_dep", time=500) + OR("h_a12_swapf", "h_a12_swapt", "h_a12_swapi", w=25, time=400) + E("h_a12_red", "h_a12_redi", time=300),
     "price: thirteen pools of two to four reserves, amplifiers 1, 10, 100, reserves up to 10^15, balanced or with more of the token sold or bought, any amount sold up to a reserve; first deposits: any balanced amount within the harness' range, two to four reserves; instructions: pools of about 10^6 tokens within 2% of balance, amounts sold up to 500 tokens without fee (pools of three in the thorough tier), 100 tokens with a fee of one per cent (with its toll), any redemption of 99%, also at twice as many of one token",
     thorough=OR("h_a12_swapt3", "h_a12_swap3", w=100, time=850),
     outside="whole instructions that leave a pool far from balance (Newton's iteration for symbolic reserves), other reserves and amplifiers for the price")

prop("A13", "In every history LP tokens and reserves come and go together",
     "However instructions follow one another, a pool holds some of each of its tokens exactly while LP tokens exist, and its vaults hold at least its reserves; its settings, mints and vaults never change. So it never runs dry under its depositors: from a new pool, or one emptied before, the first depositor can redeem everything and leaves the pool empty and usable again. Without LP tokens nothing can be traded or redeemed.",
     ["histories"], "every pool of which this is so and every deposit, redemption or swap, with any arguments (by induction every history of those); every first deposit of two rounds of filling and emptying a new pool",
     "tests run single instructions or one short history",
     an([A + "endpoints", A + "models/pool.rs"], [("deposit_tokens, redeem_tokens, swap", A + "models/pool.rs"), ("create_pool", A + "endpoints/create_pool.rs")], RS, ["pool account, LP supply, vaults after each instruction"]),
     "hamm", OR("h_a13_first", "h_a13_more", "h_a13_red2", "h_a13_red4", "h_a13_swap2", "h_a13_swap3", time=300) + OR("h_a13_cycle2", w=20, time=300) + TRY("h_a13_empty"),
     "one instruction from any state: swaps without fee and reserves and supply to 2^62, redemptions of reserves to 10^18, first deposits of any amount, later ones with reserves to 2^30 and a fixed supply; two rounds of five instructions for two tokens (three in the thorough tier); constant product curve (stable pools: A12)",
     "LP tokens burned with the token program instead of redeeming; fees (A06)",
     thorough=OR("h_a13_cycle3", w=100, time=900),
     note="An inductive invariant, and a bounded history from creation.")

PROPS = P
NOT_APPLICABLE = {}
