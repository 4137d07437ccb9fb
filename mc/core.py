"""Core of the explorer: violations, observation counters, case digests."""
import hashlib
import json


class Violation(Exception):
    """The property does not hold on the execution just explored."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def digest(obj):
    return hashlib.blake2b(
        json.dumps(obj, sort_keys=True, default=repr).encode(), digest_size=8).digest()


class Obs(object):
    """What a run has covered.

    states      distinct canonical (model) states / inputs reached
    transitions executions of the real code compared with the model
    outcomes    distinct observed outcomes (guards against vacuous runs)
    """

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.outcomes = set()
        self.samples = []
        self.traces = 0
        self.extra = {}

    def state(self, key):
        self.states.add(digest(key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(digest(key))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n
