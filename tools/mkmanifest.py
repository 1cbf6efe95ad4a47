#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
HIST = "stateful property-based testing: random instruction histories on the real program, lock-step with an exact reference model, plus invariants over the program's state"
TRUST = "Bounded random search, no proof. Trusts the in-process stand-in for the Solana runtime and the arithmetic shims described in DESIGN.md."
CHECKS = {
    "C01": (HIST, "Every instruction of every generated history keeps vaults, records and the sum of what is owed equal to the unit. " + TRUST),
    "C03": (HIST, "Priority judged from the book before and after each order, and all trades compared with the model. " + TRUST),
    "C04": (HIST, "Price, size, cost and match limits judged on every order from balances and book. " + TRUST),
    "C05": (HIST, "Promises of each order type judged on every order, results compared with the model. " + TRUST),
    "C06": (HIST, "Every fee, rebate and fee record compared with exact rational arithmetic after each instruction. " + TRUST),
    "C08": (HIST, "Histories rich in accounts meeting their own orders, all effects compared with the model. " + TRUST),
    "C09": (HIST, "Histories rich in pegged orders and oracle moves, all effects compared with the model. " + TRUST),
    "C10": (HIST, "Histories rich in timed orders around the expiry second, all effects compared with the model. " + TRUST),
    "C11": (HIST, "Every cancellation judged directly from the state before and after. " + TRUST),
    "C16": (HIST, "Book, queue and accounts cross-checked after every instruction, with full books, queues and accounts. " + TRUST),
    "C20": (HIST, "Batch and edit instructions compared with the model's sequence of single steps. " + TRUST),
    "C24": (HIST, "All emitted logs decoded and compared as a multiset with the predicted ones. " + TRUST),
    "C26": (HIST, "Volumes and penalties compared with the model after every instruction. " + TRUST),
    "C27": (HIST, "Wallet, free balance and vault changes of every funding instruction compared with the model. " + TRUST),
}
AUTH = "property-based testing: valid instructions of every kind built from random histories, then mutated (signers, signatures, accounts) and required to fail without effect"
DATA = "stateful property-based testing of the data structure against a reference container, plus random instruction histories in lock-step with a reference model"
CHECKS.update({
    "C12": (AUTH, "Each of 27 kinds of instruction with every wrong or missing signer the state offers. " + TRUST),
    "C13": (AUTH, "Each account position of each of 27 kinds of instruction replaced by foreign, wrong-kind and forged accounts. " + TRUST),
    "C14": (DATA, "Both trees of a side up to full capacity against a sorted map, all observers compared after each step. " + TRUST),
    "C15": (DATA, "Queue up to its 600 positions against a list, all observers compared after each step. " + TRUST),
    "C25": (DATA, "Queries on random books with expiries, peg limits and extreme oracle values against a sorted list. " + TRUST),
})
CHECKS.update({
    "C02": ("stateful property-based testing: random instruction histories on the real program, each followed by a random way of emptying and closing everything", "Every generated history is drained live or expired, by a random mix of cranking, cancelling, pruning and settling, down to empty vaults and returned rent. " + TRUST),
    "C07": ("metamorphic stateful property-based testing: the same random history under two different crank schedules must end equal, plus lock-step with a reference model", "Schedules: never, after every instruction, with the orders themselves, at random, by position and out of order. " + TRUST),
    "C17": ("property-based testing of market creation over random valid and invalid parameters, and of every lifecycle instruction in random histories around expiry in lock-step with a reference model", "Closing is attempted after every instruction of histories that approach emptiness. " + TRUST),
    "C18": ("stateful property-based testing: random creation, use and closing of accounts and indexes against a reference list", "Three users, up to the full 256 accounts, including wrong numbers, names, owners and accounts holding only penalties or rebates. " + TRUST),
})
CHECKS.update({
    "C19": ("property-based testing: generated oracle account contents of all five kinds, the price read off a trade against a pegged order and compared with a reference computation", "Contents aimed at lot boundaries, staleness and confidence limits, one or two oracles of any kinds, malformed accounts. Trusts the stand-ins for the providers' account decoders. " + TRUST),
})
CHECKS.update({
    "C21": ("property-based testing: random histories, then random taking orders are simulated by the client and executed, and the two compared", "The client's own files are compiled in, with a stand-in for the aggregator's interface crate. Order sizes end within, at and beyond the resting orders. " + TRUST),
    "C22": ("stateful property-based testing: random fork trees and delivery orders of notifications, snapshots, refreshes and failures against a reference that recomputes the live fork from scratch", "The client crate itself over stand-ins for its network libraries (without it, its innermost file alone). Three accounts, up to 150 notifications, with forks, gaps, repeats, late and out of order delivery."),
})
CHECKS.update({
    "C23": ("property-based testing: random values encoded and decoded by an interpreter of the published description against the program's own types, and random histories driven by a client built from the description alone", "The json file and both copies in the TypeScript client. Every instruction, account, event, type and error. " + TRUST),
})
CHECKS.update({
    "C28": ("property-based testing: random instruction histories on the real program, whose accounts the TypeScript client reads; every answer compared with one computed from the raw accounts; round trips of conversions over random markets", "The client's own files run in node with stand-ins for its libraries. Full books and queues included; pegged orders, which the client declares unimplemented, only by their number. " + TRUST),
    "C29": ("differential property-based testing: random requests put to the TypeScript client, the instructions it builds executed on a copy of the state and compared with the effect of the directly encoded request", "The client's own files run in node with stand-ins for its libraries. " + TRUST),
})
CHECKS.update({
    "C30": ("differential property-based testing: random calls of the Rust client after random histories, the transactions it sends executed on a copy of the state and compared with the effect of the directly encoded request", "The client crate itself over stand-ins for its network libraries; the node executes transactions on the runtime stand-in. " + TRUST),
    "C31": ("property-based testing of schedules: random interleavings of callers, answers, failures, abandoned calls and clearings over a gated source, judged by rules over the recorded history; random accounts read through the real requests", "The client crate itself over stand-ins for its network libraries; tasks are polled in every order the schedule names, at the granularity of await points."),
})
CHECKS.update({
    "C32": ("property-based testing: random instructions, wallets, options and failures put to the TypeScript client over a recording connection and wallet, the record judged against a reference of what was asked", "The client's own files run in node with stand-ins for its libraries; wallets and connection are recorders."),
})
NA = {}
checks = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh %s quick" % i,
            "thorough_cmd": "bash check.sh %s thorough" % i,
            "technique": t,
            "level": "exploration",
            "level_note": n,
            "evidence_file": "evidence/%s.json" % i,
        })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not finished yet")} for p in props if p["id"] not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are one Rust program (harness/) built against /repo's current tree; see DESIGN.md. Findings and repairs: known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
