"""The compiler's verdict on many small programs: one module each, one diagnostic pass per round.

A program is rejected when a diagnostic points into it. The programs a round rejects are removed and the
rest compiled again, until a round has no diagnostics: what is left is accepted by a complete run of the
compiler, never by the mere absence of a message from an interrupted one."""
import json, os, subprocess
import engine
from concurrent.futures import ThreadPoolExecutor


def verdicts(name, snippets, shards=16, prelude="use packed_struct::prelude::*;", rounds=8, crate="#![allow(warnings)]\n", features=("std",), profile="dev"):
    """snippets: {id: source}; returns ({id: message of the rejection, or None}, compiler runs)"""
    out, todo, runs = {}, dict(snippets), 0
    for rnd in range(rounds):
        ws = engine.Workspace("%s" % name, mc=False, profile=profile, features=features)
        ws.cap_lints = False
        ids = list(todo)
        for k in range(shards):
            part = ids[k::shards]
            if not part:
                continue
            src, owner, line = crate, [], crate.count("\n")
            for i in part:
                t = "mod m_%s {\n%s\n%s\n}\n" % (i, prelude, todo[i].rstrip())
                owner.append((line + 1, line + t.count("\n"), i))
                src += t
                line += t.count("\n")
            ws.add("%s_%d" % (name, k), src, owner, lib=True)
        errs = ws.build(args=("check",), timeout=400)
        runs += len(ws.members)
        bad = {}
        for pkg, f, line, msg, rendered in errs:
            who = ws.owner_of(pkg, line)
            if who is None:
                raise engine.EngineError("a diagnostic that belongs to no program: " + (rendered or msg))
            bad.setdefault(who, msg)
        if not bad:
            out.update({i: None for i in todo})
            return out, runs
        out.update(bad)
        todo = {i: s for i, s in todo.items() if i not in bad}
        if not todo:
            return out, runs
    raise engine.EngineError("the compiler's verdicts do not settle in %d rounds" % rounds)
