"""Monitoring framework: cases, verdicts, counters, replay, evidence.

A *property module* (rv/props/<name>.py) declares

    ID         property id
    RULE       what a case is and when it counts as distinct / non-trivial
    SCENARIOS  {name: Scenario(fn, quick=N, thorough=M, floor=K)}

A *scenario function* gets a `Case` and drives the real code from /repo with inputs
derived only from the case's seed, while its oracle calls (`case.check`, `case.close`,
`case.near`) observe what the code did.  Verdicts are three-valued:

    violated      some oracle call was false (or valid input crashed the code)
    held          every oracle call was true, and every scenario reached its floors
    inconclusive  a scenario's deciding oracle was never reached (harness error, exit 2)
"""
import hashlib
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from collections import Counter
from typing import Any, Callable, Dict, List, Optional

import torch

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D64 = torch.float64
D32 = torch.float32


class Violation(Exception):
    def __init__(self, msg, key=None, info=None):
        super().__init__(msg)
        self.msg, self.key, self.info = msg, key, info or {}


class Skip(Exception):
    """The generated case is outside the property's domain."""


class Scenario:
    def __init__(self, fn, quick: int, thorough: int, floor: int = 1):
        self.fn, self.quick, self.thorough, self.floor = fn, quick, thorough, floor


def digest(*parts) -> str:
    h = hashlib.sha1()
    for p in parts:
        if isinstance(p, torch.Tensor):
            p = p.detach().double().cpu().numpy().round(9).tobytes()
        elif not isinstance(p, bytes):
            p = repr(p).encode()
        h.update(p)
    return h.hexdigest()[:16]


class Case:
    def __init__(self, prop: str, scenario: str, seed: int, tier: str, known: Dict[str, str]):
        self.prop, self.scenario, self.seed, self.tier = prop, scenario, seed, tier
        self.rng = random.Random(f"{prop}/{scenario}/{seed}")
        self.gen = torch.Generator()
        self.gen.manual_seed(self.rng.getrandbits(48))
        torch.manual_seed(self.rng.getrandbits(48))
        self.known = known
        self.events: Counter = Counter()
        self.oracle_calls = 0
        self.signature: Optional[str] = None
        self.trivial = False
        self.desc: Dict[str, Any] = {}
        self.known_hits: Dict[str, str] = {}
        self.max_dev: Dict[str, float] = {}

    # ---- generation helpers -------------------------------------------------
    def choice(self, seq):
        return self.rng.choice(list(seq))

    def chance(self, p: float) -> bool:
        return self.rng.random() < p

    def randint(self, a: int, b: int) -> int:
        return self.rng.randint(a, b)

    def randn(self, *size, dtype=D64, scale=1.0):
        return torch.randn(*size, generator=self.gen, dtype=D64).mul(scale).to(dtype)

    def rand(self, *size, dtype=D64, lo=0.0, hi=1.0):
        return (torch.rand(*size, generator=self.gen, dtype=D64) * (hi - lo) + lo).to(dtype)

    def logu(self, lo: float, hi: float) -> float:
        return math.exp(self.rng.uniform(math.log(lo), math.log(hi)))

    # ---- observation --------------------------------------------------------
    def describe(self, **kw):
        self.desc.update(kw)

    def sig(self, *parts):
        self.signature = digest(self.scenario, *parts)

    def event(self, kind: str, n: int = 1):
        self.events[kind] += n

    # ---- oracles ------------------------------------------------------------
    def fail(self, msg: str, key: Optional[str] = None, **info):
        if key is not None and key in self.known:
            self.known_hits[key] = msg
            return
        raise Violation(msg, key, info)

    def check(self, cond, msg: str, key: Optional[str] = None, **info) -> bool:
        self.oracle_calls += 1
        if not bool(cond):
            self.fail(msg, key, **info)
            return False
        return True

    def close(self, got, want, atol: float, msg: str, rtol: float = 0.0,
              key: Optional[str] = None, **info) -> bool:
        """got == want up to atol + rtol*|want| elementwise; shapes must agree and
        both must be finite."""
        self.oracle_calls += 1
        if not isinstance(got, torch.Tensor):
            got = torch.as_tensor(got)
        if not isinstance(want, torch.Tensor):
            want = torch.as_tensor(want)
        g, w = got.detach(), want.detach()
        if tuple(g.shape) != tuple(w.shape):
            self.fail(f"{msg}: shape {tuple(g.shape)} != expected {tuple(w.shape)}", key, **info)
            return False
        if g.numel() == 0:
            return True
        g, w = g.double(), w.double()
        if not torch.isfinite(g).all():
            self.fail(f"{msg}: non-finite result {g.flatten()[:6].tolist()} expected "
                      f"{w.flatten()[:6].tolist()}", key, **info)
            return False
        dev = (g - w).abs() - rtol * w.abs()
        m = float(dev.max())
        kind = msg.split(":")[0].split("[")[0]
        if m > self.max_dev.get(kind, -1.0):
            self.max_dev[kind] = m
        if not (m <= atol):
            i = int(dev.flatten().argmax())
            self.fail(f"{msg}: |diff| {m:.3e} > {atol:.1e} (got {float(g.flatten()[i]):.9g}, "
                      f"expected {float(w.flatten()[i]):.9g})", key, **info)
            return False
        return True

    def same(self, got, want, msg: str, key: Optional[str] = None, **info) -> bool:
        """Bit-for-bit equality (NaN equal to NaN)."""
        self.oracle_calls += 1
        ok = tuple(got.shape) == tuple(want.shape) and got.dtype == want.dtype
        if ok and got.numel():
            g, w = got.detach(), want.detach()
            ok = bool(((g == w) | ((g != g) & (w != w))).all())
        if not ok:
            self.fail(f"{msg}: tensors differ", key, **info)
        return ok

    def raises(self, exc, fn: Callable, msg: str, key: Optional[str] = None) -> bool:
        self.oracle_calls += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:  # wrong kind
            self.fail(f"{msg}: raised {type(e).__name__}: {e}", key)
            return False
        self.fail(f"{msg}: nothing was raised", key)
        return False


def verdict(scenario, seed, status, msg) -> dict:
    """The record of a case that could not make its own."""
    return dict(scenario=scenario, seed=seed, status=status, msg=msg, key=None, info="", oracle_calls=1, events={}, sig=None,
                desc={}, known_hits={}, max_dev={}, t=0.0)


def run_case(prop, scenario, fn, seed, tier, known) -> dict:
    case = Case(prop, scenario, seed, tier, known)
    out = {"scenario": scenario, "seed": seed, "status": "ok"}
    grad_before = torch.is_grad_enabled()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(case)
    except Skip:
        out["status"] = "skip"
    except Violation as v:
        out.update(status="violation", msg=v.msg, key=v.key, info=repr(v.info)[:2000])
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        # The generated input is valid, so a crash is a violation: either the code under
        # test raised, or it returned something the monitor could not even consume (a
        # wrong shape, a missing entry).  Environment trouble is never a verdict.
        env = isinstance(e, (ImportError, OSError, NameError))
        out.update(
            status="harness_error" if env else "violation",
            msg=f"unexpected {type(e).__name__}: {e}",
            key=None,
            info="".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
        )
    torch.set_grad_enabled(grad_before)
    out.update(
        oracle_calls=case.oracle_calls,
        events=dict(case.events),
        sig=None if case.trivial else (case.signature or digest(scenario, seed)),
        desc=case.desc,
        known_hits=case.known_hits,
        max_dev=case.max_dev,
    )
    return out


def load_known(prop: str) -> Dict[str, str]:
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e["what"] for e in data["findings"] if e["property"] == prop}
