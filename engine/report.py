"""Obligations, verdicts, evidence."""

from __future__ import annotations

import json
import os
import re
import sys
import time

from . import poly as P
from .arr import RANGE, Sc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class AnchorLost(Exception):
    """Something every run must find in the source is not there."""


def unknown_key(k, depth=0):
    if isinstance(k, tuple):
        return any(unknown_key(x, depth + 1) for x in k)
    return isinstance(k, str) and k[:1] == "?"


_unk: dict = {}


def has_unknown(p) -> bool:
    p = P.P(p)
    for a in P.all_atoms(p):
        r = _unk.get(a)
        if r is None:
            k = P.ATOMS[a]
            r = _unk[a] = k[0] in ("sym", "fn") and unknown_key(k[1:])
        if r:
            return True
    return False


MEANT = {"sum_nonuniform", "argsort", "pick", "argmin", "argmax", "anyzero", "eqv", "any", "all", "issorted", "sorted", "rolled"}
_foreign: dict = {}


def foreign(*ps, spec=None):
    """An operation in the terms that valuations give no meaning, or None; those of the
    specification have the meaning it gives them."""
    own = {P.ATOMS[x][1] for x in P.all_atoms(P.P(spec)) if P.ATOMS[x][0] == "fn"} if spec is not None else ()
    for p in ps:
        for a in P.all_atoms(p):
            r = _foreign.get(a)
            if r is None:
                k = P.ATOMS[a]
                r = _foreign[a] = k[0] == "fn" and not (k[1] in MEANT or k[1] in P.MATHFN or P.clock_known(k)) or k[:2] == ("sym", "arr")
            if r and not (P.ATOMS[a][0] == "fn" and P.ATOMS[a][1] in own):
                return P.show_atom(a)[:120]
    return None


_ties: dict = {}


def tie_symbols(pid):
    """Symbols in which a compared term is linear: (atom, coefficient, rest)."""
    r = _ties.get(pid)
    if r is not None:
        return r
    r = []
    p = P.unlet(P.POLY_BY_ID(pid))
    for x in sorted(P.all_atoms(p)):
        k = P.ATOMS[x]
        if k[0] != "sym" or k[1] in ("latitude", "longitude", "timestep"):
            continue
        lin, rest = {}, {}
        for m, c in p.t.items():
            e = dict(m).get(x)
            if e is None:
                rest[m] = c
            elif e == 1:
                lin[tuple(y for y in m if y[0] != x)] = c
            else:
                lin = None
                break
        if not lin:
            continue
        lin, rest = P.Poly(lin), P.Poly(rest)
        if x in P.all_atoms(lin) or x in P.all_atoms(rest):
            continue
        r.append((x, lin, rest))
        if len(r) >= 4:
            break
    _ties[pid] = r
    return r


def flip_symbols(pid):
    """Like tie_symbols; the length of a step too."""
    return tie_symbols(pid)


def unlimited(x, chooser):
    """(lowest, highest) value of a symbol, None if it has the values the chooser gives it."""
    every = -1e9, 1e9
    if chooser is None:
        return every
    free = getattr(chooser, "free", None)
    r = free(P.ATOMS[x]) if free is not None else None
    if r:
        return every if r is True else r
    return every if chooser(P.ATOMS[x], P.Rnd(12345)) is None else None


def parse_known():
    """known_findings.txt: 'KNOWN property=<id> key=<key> :: <what>' lines."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN property=(\S+) key=(\S+) :: (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


class Report:
    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.obs: list[dict] = []
        self.analysed: dict[str, int] = {}
        self.callsites = 0
        self.stmts = 0
        self.worlds = 0
        self.rules: dict[str, str] = {}
        self.assumptions: list[str] = []
        self.notes: list = []
        self._support: dict = {}
        self.tries = 60 if tier == "quick" else 400

    # -- bookkeeping ---------------------------------------------------------
    def world(self, w):
        I = w.I if hasattr(w, "I") else w
        if getattr(I, "_counted", None) == (len(I.events), I.stmts):
            return
        self.worlds += 1
        for q, n in I.called.items():
            self.analysed[q] = self.analysed.get(q, 0) + n
        self.callsites += I.callsites
        self.stmts += I.stmts
        for n in I.notes:
            if n not in self.notes:
                self.notes.append(n)
        I._counted = (len(I.events), I.stmts)

    def rule(self, name, text):
        self.rules[name] = text

    def add(self, rule, construct, status, detail="", where="", data=None):
        key = f"{rule}@{construct}".replace(" ", "_")
        o = {"rule": rule, "construct": construct, "key": key, "status": status,
             "detail": detail, "where": where}
        if data is not None:
            o["data"] = data
        self.obs.append(o)
        return o

    def proved(self, rule, construct, detail="", where=""):
        return self.add(rule, construct, "proved", detail, where)

    def violated(self, rule, construct, detail, where="", data=None):
        return self.add(rule, construct, "violated", detail, where, data)

    def undecided(self, rule, construct, detail="", where=""):
        return self.add(rule, construct, "undecided", detail, where)

    def holds(self, rule, construct, ok, detail="", where=""):
        """Structural obligation with a definite answer."""
        return self.add(rule, construct, "proved" if ok else "violated", "" if ok else detail, where)

    # -- term obligations ------------------------------------------------------
    def equal(self, rule, construct, actual, spec, chooser=None, assume=None, where="", tries=None, what=""):
        """actual == spec for every value of the inputs."""
        a = actual.p if isinstance(actual, Sc) else P.P(actual)
        b = spec.p if isinstance(spec, Sc) else P.P(spec)
        if assume is None and a == b:
            return self.proved(rule, construct, where=where)
        if has_unknown(a) or has_unknown(b):
            return self.undecided(rule, construct, "term outside the modelled language: " + P.show(a)[:200], where)
        if assume is None:
            d = P.unlet(a - b)
            if d.is_zero():
                return self.proved(rule, construct, where=where)
        n, w = self.sample(a, b, chooser, assume, tries or self.tries)
        if w is not None:
            v, x, y = w
            if foreign(a, spec=b):
                return self.undecided(rule, construct, f"rests on {foreign(a, spec=b)}", where)
            detail = f"{what or 'value'} is {x:.6g} where the property requires {y:.6g}"
            return self.violated(rule, construct, detail, where, data={
                "term": P.show(a)[:1500], "required": P.show(b)[:1500], "valuation": self.describe(v, a, b)})
        if n == 0:
            return self.undecided(rule, construct, "no valuation satisfies the assumptions", where)
        return self.add(rule, construct, "agrees", f"{n} valuations", where)

    def numeric(self, rule, construct, actual, oracle, chooser=None, where="", tries=None, what="", tol=1e-6, floor=1e-3):
        """actual has the value ``oracle(valuation)`` for all valuations tried
        (the oracle may return None: the valuation is outside the assumptions)."""
        a = actual.p if isinstance(actual, Sc) else P.P(actual)
        if has_unknown(a):
            return self.undecided(rule, construct, "term outside the modelled language: " + P.show(a)[:200], where)
        n = 0
        for v in self.valuations(a, P.ZERO, chooser, None, tries or self.tries):
            y = oracle(v)
            if y is None:
                continue
            n += 1
            x = v.poly(a)
            if abs(x - y) > tol * max(abs(x), abs(y), floor):
                if foreign(a):
                    return self.undecided(rule, construct, f"rests on {foreign(a)}", where)
                return self.violated(rule, construct, f"{what or 'value'} is {x:.6g} where the property requires {y:.6g}", where,
                                     data={"term": P.show(a)[:1500], "valuation": self.describe(v, a)})
        if n == 0:
            return self.undecided(rule, construct, "no valuation satisfies the assumptions", where)
        return self.add(rule, construct, "agrees", f"{n} valuations", where)

    def nonneg(self, rule, construct, term, chooser=None, assume=None, where="", tries=None, what="", tol=1e-6):
        """term >= 0 for every value of the inputs."""
        return self.le(rule, construct, P.ZERO, term.p if isinstance(term, Sc) else term, chooser, assume, where,
                       tries, what)

    def le(self, rule, construct, a, b, chooser=None, assume=None, where="", tries=None, what="", tol=1e-6):
        """a <= b for every value of the inputs."""
        a, b = P.P(a), P.P(b)
        if RANGE.le(a, b) or P.known_sign(b - a) in (0, 1, ">=0"):
            return self.proved(rule, construct, where=where)
        if has_unknown(a) or has_unknown(b):
            return self.undecided(rule, construct, "term outside the modelled language", where)
        n = 0
        for v in self.valuations(a, b, chooser, assume, tries or self.tries):
            n += 1
            if P.exceeds(v, a, b):
                x, y = v.poly(a), v.poly(b)
                if foreign(a, b):
                    return self.undecided(rule, construct, f"rests on {foreign(a, b)}", where)
                return self.violated(rule, construct, f"{what or 'value'}: {x:.6g} exceeds {y:.6g}", where, data={
                    "term": P.show(a)[:1500], "bound": P.show(b)[:1500], "valuation": self.describe(v, a, b)})
        if not n:
            return self.undecided(rule, construct, "no valuation satisfies the assumptions", where)
        return self.add(rule, construct, "agrees", f"{n} valuations", where)

    def valuations(self, a, b, chooser, assume, tries):
        """Random valuations, then valuations on which a comparison in the terms is a tie."""
        n = 0
        pending = {x: set() for x in P.all_atoms(a) | P.all_atoms(b) if P.ATOMS[x][0] == "gt0"}
        for k in range(tries * (6 if assume else 1)):
            v = P.Valuation(self.seed * 100003 + k, chooser)
            if assume is not None and not assume(v):
                continue
            n += 1
            yield v
            for x in list(pending):
                pending[x].add(v.atom(x))
                if len(pending[x]) > 1:
                    del pending[x]
            if n >= tries:
                break
        yield from self.ties(a, b, chooser, assume)
        yield from self.flips(pending, chooser, assume)

    def flips(self, pending, chooser, assume):
        """Valuations on which a comparison that came out the same on all others comes
        out the other way, by a value without known limits beyond the usual ones."""
        budget = 60 if self.tier == "quick" else 300
        for c in sorted(pending):
            pid = P.ATOMS[c][1]
            tried = 0
            for x, alpha, rest in flip_symbols(pid):
                lim = unlimited(x, chooser)
                if not lim:
                    continue
                for k in range(12):
                    v = P.Valuation(self.seed * 7919 + k, chooser)
                    al = v.poly(alpha)
                    old = v.atom(c)
                    if not al or pending[c] != {old}:
                        continue
                    at = -v.poly(rest) / al
                    val = at + (1 if (al > 0) == (old == 0.0) else -1) * max(abs(at) * 0.37, 0.3)
                    if (x in P.POS and val <= 0) or (x in P.NONNEG and val < 0) or x in P.BOOL or x in P.INT:
                        continue
                    if not lim[0] <= val <= lim[1]:  # just beyond the threshold instead
                        val = (at + (lim[1] if val > at else lim[0])) / 2
                    if not lim[0] <= val <= lim[1]:
                        continue
                    v = P.Valuation(self.seed * 7919 + k, chooser)
                    v.v[x] = (val, 0.0)
                    if v.atom(c) == old or (assume is not None and not assume(v)):
                        continue
                    tried += 1
                    budget -= 1
                    yield v
                    if tried >= 4 or budget <= 0:
                        break
                if tried >= 4 or budget <= 0:
                    break
            if budget <= 0:
                return

    def ties(self, a, b, chooser, assume):
        atoms = P.all_atoms(a) | P.all_atoms(b)
        cmps = sorted({P.ATOMS[x][1] for x in atoms if P.ATOMS[x][0] in ("gt0", "eq0")})
        budget = 40 if self.tier == "quick" else 200
        for pid in cmps:
            if budget <= 0:
                return
            for x, alpha, rest in tie_symbols(pid):
                lo, hi, integral = self.support(x, chooser)
                for k in range(12):
                    v = P.Valuation(self.seed * 7919 + k, chooser)
                    al = v.poly(alpha)
                    if not al:
                        continue
                    val = -v.poly(rest) / al
                    if not lo <= val <= hi or (integral and val != int(val)):
                        continue
                    v = P.Valuation(self.seed * 7919 + k, chooser)
                    v.v[x] = (val, 0.0)
                    if v.poly(P.POLY_BY_ID(pid)) != 0.0 or (assume is not None and not assume(v)):
                        continue
                    budget -= 1
                    yield v
                    if k >= 6:
                        break

    def support(self, x, chooser):
        key = (x, id(chooser))
        r = self._support.get(key)
        if r is None:
            vals = [P.Valuation(self.seed * 31 + k, chooser).atom(x) for k in range(24)]
            r = self._support[key] = (min(vals), max(vals), all(v == int(v) for v in vals))
        return r

    def sample(self, a, b, chooser, assume, tries, tol=1e-6):
        n = 0
        for v in self.valuations(a, b, chooser, assume, tries):
            n += 1
            if P.apart(v, a, b):
                return n, (v, v.poly(a), v.poly(b))
        return n, None

    def describe(self, v, *ps):
        out = {}
        for p in ps:
            for i in sorted(P.all_atoms(p)):
                if P.ATOMS[i][0] in ("sym", "fn") and len(out) < 40:
                    out[P.show_atom(i)[:80]] = round(v.atom(i), 6)
        return out

    # -- outcome -----------------------------------------------------------------
    def finish(self, explanation, level="other"):
        known = parse_known()
        bad, kf = [], []
        for o in self.obs:
            if o["status"] != "violated":
                continue
            k = (self.pid, o["key"])
            if k in known:
                o["known"] = True
                kf.append((o, known[k]))
            else:
                bad.append(o)
        count = lambda s: sum(o["status"] == s for o in self.obs)
        ev_dir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        total = len(self.obs)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "obligations": total,
                "discharged": count("proved") + count("agrees"),
                "explanation": explanation,
                "proved_by_normal_form": count("proved"),
                "equal_on_all_valuations": count("agrees"),
                "undecided": count("undecided"),
                "violated": len(bad), "known_findings": len(kf),
                "analysis_contexts": self.worlds,
                "functions_analysed": sorted(self.analysed),
                "call_sites_interpreted": self.callsites,
                "statements_interpreted": self.stmts,
                "rules": self.rules,
                "obligation_list": [
                    {k: o[k] for k in ("key", "status", "where", "detail") if o.get(k)} for o in self.obs
                ][:400],
                "engine_notes": [f"{a}:{b}: {c}" for a, b, c in self.notes][:60],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
        }
        if bad:
            ev["violations"] = [{k: o[k] for k in ("key", "detail", "where", "data") if o.get(k)} for o in bad]
        path = os.path.join(ev_dir, f"{self.pid}.json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for o, text in kf:
            print(f"KNOWN-FINDING: property={self.pid} {text} [{o['key']}]")
        print(f"{self.pid} [{self.tier}]: {total} obligations, {count('proved')} proved, "
              f"{count('agrees')} equal on all valuations, {count('undecided')} undecided, "
              f"{len(bad)} violated, {len(kf)} known; {len(self.analysed)} functions, "
              f"{self.callsites} call sites, {ev['wall_s']} s")
        for o in self.obs:
            if o["status"] == "undecided":
                print(f"  undecided: {o['key']}: {o['detail'][:160]}")
        if bad:
            rp = os.path.join(ev_dir, f"{self.pid}.violation.json")
            with open(rp, "w") as f:
                json.dump(ev["violations"], f, indent=1, default=str)
            for o in bad:
                print(f"  {o['key']} at {o['where']}: {o['detail']}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if total == 0 or count("proved") + count("agrees") + len(kf) == 0:
            print("ERROR: no obligation was decided", file=sys.stderr)
            return 2
        return 0
