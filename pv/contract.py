"""What a contract module declares."""

from __future__ import annotations


class Proof:
    """One unit of deductive work: real function(s) against a contract.

    fn(e)      runs on every path of the symbolic execution
    loops      {loop key: LoopContract}
    functions  qualified names of the /repo functions whose bodies are executed
    assumes    assumed contracts used by this proof
    bound      None for an unbounded proof, else text of the bound
    exts       (unused by symbolic proofs)
    to_cases   (obligation, model) -> list of (falsifier name, case)
    """

    def __init__(self, name, fn, functions, loops=None, assumes=(), bound=None, to_cases=None,
                 budget=240, timeout_ms=30000, unroll=3, max_paths=6000, tier="quick", covers=(), abstract=False):
        # abstract: over uninterpreted functions; a refutation counts only when replayed on the real code
        self.abstract = abstract
        self.name, self.fn, self.functions = name, fn, list(functions)
        self.loops = loops or {}
        self.assumes = list(assumes)
        self.bound = bound
        self.to_cases = to_cases
        self.budget, self.timeout_ms = budget, timeout_ms
        self.unroll, self.max_paths = unroll, max_paths
        self.tier = tier
        self.covers = list(covers)


class Falsifier:
    """Run-time evaluation of the contract on the real code.

    gen(rng, i) -> JSON-able case; check(case) -> None if the contract holds,
    else a message.  ranks: tuple of MPI sizes to run on (None: serial).
    """

    def __init__(self, name, gen, check, n=200, thorough=5000, ranks=None, fixed=(), timeout=60,
                 bound=""):
        self.name, self.gen, self.check = name, gen, check
        self.n, self.thorough = n, thorough
        self.ranks = ranks
        self.fixed = list(fixed)
        self.timeout = timeout
        self.bound = bound


class External:
    """A back end run as a program: fn(root, tier) -> list of obligation dicts

    {name, status: proved|refuted|unknown, backend, solver_s, cases: [(falsifier, case)], detail}
    """

    def __init__(self, name, fn, functions, assumes=(), bound=None, budget=600):
        self.name, self.fn, self.functions = name, fn, list(functions)
        self.assumes, self.bound, self.budget = list(assumes), bound, budget
