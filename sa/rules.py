from rulebase import RULES
ASSUMES = [
    "the analysed MIR is what rustc (nightly, overflow checks on, host target) produces from /repo's source; the on-chain SBF build is taken to agree with it",
    "library functions (solana_program, spl_token, sokoban, borsh, bytemuck, itertools, core/alloc) behave as their documented contracts, which the engine models",
    "cross-program calls do not write account data through the RefCells the program holds, other than the token and system effects they name",
    "distinct account slots are treated as distinct accounts; two slots aliasing one account is left to the runtime's balance checks",
]
import rules_p  # noqa
import rules_t  # noqa
import rules_x  # noqa
import rules_e  # noqa
import rules_m  # noqa
import rules_w  # noqa
import rules_l  # noqa
