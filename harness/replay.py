"""Mode A replay and Mode B store histories."""
from __future__ import annotations

from . import coop, terms
from .core import watchdog
from .terms import dec, enc, run_op


def replay_cases(ctx, items, forms, *, variants=((),), label="", limit_s=30, keyfn=None, opaque=True, tuples=True, bind=None):
    """Replay every transition printed by the specification on every form of the API.

    items: dicts {op, args, ret, calls}; forms: op -> [(name, callable)].
    variants: sequences of context managers (decoding variants).
    """
    ctx.phase(f"code:{label or 'replay'}")
    n = 0
    missing = set()
    for k, it in enumerate(items):
        fs = forms.get(it["op"])
        if not fs:
            missing.add(it["op"])
            continue
        if k % 100 == 0 and ctx.late(len(items) - k):
            break
        for var in variants:
            for fname, fn in fs:
                if var:
                    var[0]()
                terms.rotate(bind if bind is not None else n if opaque else None, tuples=tuples)
                try:
                    with watchdog(limit_s, f"{it['op']} {fname} {it['args']}"):
                        args = [dec(a) for a in it["args"]]
                        ret, calls = run_op(fn, args)
                        after = [enc(a) for a in args]
                except terms.HangError as e:
                    ctx.violation("operation does not terminate", {"op": it["op"], "form": fname, "args": it["args"], "hang": str(e)})
                    continue
                finally:
                    if var:
                        var[1]()
                n += 1
                bad = None
                if ret != it["ret"]:
                    bad = "result differs from the specification"
                elif "calls" in it and calls != it["calls"]:
                    bad = "callback calls differ from the specification"
                elif after != it.get("after", it["args"]):
                    bad = "an operand was changed" if "after" not in it else "the operands' contents differ from the specification"
                if bad:
                    key = keyfn(it, fname, ret) if keyfn else None
                    ctx.violation(bad, {"op": it["op"], "form": fname, "args": it["args"], "expected": it["ret"],
                                        "expected_calls": it.get("calls"), "got": ret, "calls": calls, "after": after, "opaque": terms.binding()}, key=key)
    terms.rotate(None)
    if missing:
        raise RuntimeError(f"no form for operations {sorted(missing)}")
    ctx.add(traces_validated_against_impl=n)
    ctx.add(replayed_transitions=len(items))
    for it in items[:: max(1, len(items) // 3)][:3]:
        ctx.sample({"spec_transition": it, "forms": [f for f, _ in forms[it["op"]]]})
    return n


def has_atom(t):
    return isinstance(t, list) and (t[:1] == ["weird"] or any(has_atom(x) for x in t))


def sweep(ctx, items, forms, *, label="", variants=((),), per_op=40, tuples=True, keyfn=None):
    """Every transition with an opaque atom (at most per_op of an operation), with the atom bound to each object of the pool in turn."""
    by = {}
    for it in items:
        if has_atom([it["args"], it["ret"]]):
            by.setdefault(it["op"], []).append(it)
    pick = []
    for ws in by.values():
        # the smallest transitions first, then an even spread
        ws = sorted(ws, key=lambda it: len(str(it["args"])))
        n = max(1, per_op // 2)
        rest = ws[n:]
        pick += ws[:n] + rest[:: max(1, len(rest) // n)][:n]
    exotic_n = terms.pool_size(tuples)
    total = 0
    for k in range(exotic_n):
        if ctx.late(exotic_n - k):
            break
        total += replay_cases(ctx, pick, forms, variants=variants, label=label, tuples=tuples, bind=k, keyfn=keyfn)
    return total


def pick_pairs(items, forms, rng, per_op):
    by = {}
    for it in items:
        by.setdefault(it["op"], []).append(it)
    for op, its in by.items():
        rich = [it for it in its if it.get("calls")] or its
        for fname, fn in forms[op]:
            for _ in range(per_op):
                yield op, fname, fn, rng.choice(rich), rng.choice(rich if rng.random() < 0.7 else its)


def pair_job(a):
    op, fname, fn, x, y, share, cap = a
    args = [dec(t) for t in x["args"]]
    one = lambda it: terms.run_here(fn, args if share else [dec(t) for t in it["args"]])  # noqa: E731
    want = [[x["ret"], x.get("calls")], [y["ret"], y.get("calls")]]
    n = 0
    for got, sched in coop.together([lambda: one(x), lambda: one(y)], bound=1, max_runs=cap):
        n += 1
        for g, w in zip(got, want):
            if g[0] != w[0] or (w[1] is not None and g[1] != w[1]):
                return n, {"op": op, "form": fname, "args": [x["args"], y["args"]], "expected": want, "got": got, "schedule": sched}
    return n, None


def pairs(ctx, items, forms, *, label, share=True, per_op=2, cap=25, skip=None):
    """Two threads use one form at the same time, also on the same objects; they switch between any two lines of the package."""
    ctx.phase(f"code:{label} by two threads")
    terms.rotate(None)
    n = 0
    items = [it for it in items if not (skip and skip(it))]
    for k, (op, fname, fn, x, y) in enumerate(pick_pairs(items, forms, ctx.rng, per_op if ctx.quick else 20 * per_op)):
        if ctx.late():
            break
        same = share and k % 2 == 0
        with watchdog(60, f"{op} {fname} by two threads"):
            r, bad = pair_job((op, fname, fn, x, x if same else y, same, cap))
        n += r
        if bad:
            ctx.violation("an operation used by two threads at the same time differs from the specification", bad)
    ctx.add(schedules=n)


class StoreDriver:
    """Random histories over a growing store of real values, logged for StoreTrace."""

    def __init__(self, ctx, forms, gen_case, gen_lit, heap=None, opaque=True, tuples=True):
        """gen_case(rng, regs) -> (op, [arg | ('reg', i)]) ; gen_lit(rng) -> term

        heap: predicate on terms; the objects are mutable and results satisfying it are kept.
        """
        self.ctx, self.forms, self.gen_case, self.gen_lit, self.heap = ctx, forms, gen_case, gen_lit, heap
        self.opaque, self.tuples = opaque, tuples
        self.events = []

    def script(self, lits, ops, proj_every=1):
        """A given history: literals, then operations with ('reg', i) arguments; stops at an operation whose register is missing."""
        it = iter(ops)

        def nxt(rng, tags):
            for op, args in it:
                if all(a[0] != "reg" or a[1] < len(tags) for a in args):
                    return op, args
            return None

        self.history(len(lits), len(ops), proj_every, lits, nxt)

    def history(self, nlits, nops, proj_every=5, first=(), gen=None):
        rng = self.ctx.rng
        ev = self.events
        if self.ctx.late():
            return
        self.nh = getattr(self, "nh", 0) + 1
        terms.rotate(self.nh if self.opaque else None, tuples=self.tuples)
        ev.append({"ev": "reset", "opaque": terms.binding()})
        objs, tags = [], []
        for k in range(nlits):
            t = first[k] if k < len(first) else self.gen_lit(rng)
            objs.append(dec(t))
            tags.append(t)
            ev.append({"ev": "lit", "v": t})
        for i in range(nops):
            nxt = (gen or self.gen_case)(rng, tags)
            if nxt is None:
                break
            op, spec_args = nxt
            args = [objs[a[1]] if a[0] == "reg" else dec(a) for a in spec_args]
            fname, fn = rng.choice(self.forms[op])
            with watchdog(30, f"{op} {fname} {spec_args}"):
                holder = []

                def call(*a, fn=fn, holder=holder):
                    r = fn(*a)
                    holder.append(r)
                    return r

                ret, calls = run_op(call, args)
            ev.append({"ev": "call", "op": op, "form": fname,
                       "args": [["reg", a[1] + 1] if a[0] == "reg" else a for a in spec_args], "ret": ret, "calls": calls})
            if self.heap:
                tags[:] = [enc(o) for o in objs]
            if ret[0] != "raise" and (not self.heap or self.heap(ret)):
                objs.append(holder[0])
                tags.append(ret)
            if (i + 1) % proj_every == 0 or i == nops - 1:
                ev.append({"ev": "proj", "regs": [enc(o) for o in objs]})

    def validate(self, module, what="recorded history", **kw):
        validate_store(self.ctx, module, self.events, what, **kw)


def strip(e):
    return {k: v for k, v in e.items() if k not in ("form", "opaque")}


def validate_store(ctx, module, events, what="recorded history", keyfn=None, timeout=600, cfg="", files=None):
    r = ctx.tlc(module, cfg + "SPECIFICATION TSpec\nINVARIANT TDone\nCHECK_DEADLOCK FALSE\n",
                files={**(files or {}), "traces.ndjson": [strip(e) for e in events]}, workers=1, timeout=timeout)
    done = [i for i in r.items if "validated" in i]
    if not done or done[0]["validated"] != len(events):
        raise RuntimeError(f"trace validation incomplete: {done} of {len(events)}")
    for it in r.items:
        if "mismatch" in it:
            i = it["line"] - 1
            start = max(j for j in range(i + 1) if events[j]["ev"] == "reset")
            ctx.violation(f"{what}: {it['mismatch']}", {"event": events[i], "expected": it["expected"], "history": events[start:i + 1]},
                          key=keyfn(events[i], it) if keyfn else None)
    nh = sum(1 for e in events if e["ev"] == "reset")
    ctx.add(traces_validated_against_impl=nh, trace_events=len(events))
    calls = [e for e in events if e["ev"] == "call"]
    if calls:
        ctx.sample({"recorded_event": calls[len(calls) // 2]})


def accept(ctx, module, traces, what, *, timeout=600, workers=8, cfg="", keyfn=None, show=lambda t: t):
    """Recorded histories with unobserved steps: each must be a behaviour of the specification."""
    if not traces:
        return
    r = ctx.tlc(module, cfg + "SPECIFICATION Spec\nINVARIANT Accept\nCHECK_DEADLOCK FALSE\n", files={"traces.ndjson": traces}, workers=workers, timeout=timeout)
    ok = {i["accept"] for i in r.items}
    for k, t in enumerate(traces, 1):
        if k not in ok:
            ctx.violation(what, show(t), key=keyfn(t) if keyfn else None)
    ctx.add(traces_validated_against_impl=len(traces), trace_events=sum(len(t["h"]) for t in traces))
    t = traces[len(traces) // 2]
    ctx.sample({"accepted_history": {**t, "h": t["h"][:40]}})
