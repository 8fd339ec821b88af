"""Parallel discharge of lemmas."""
import os, time, multiprocessing as mp
from . import lemma, smt

def _one(a):
    i, lem, to = a
    t = time.time()
    smt.STATS.reset()
    r = lemma.discharge(lem, to)
    d = smt.STATS.dump()
    return i, r, time.time() - t, d

def discharge_all(lemmas, timeout=40, procs=8, log=None):
    """-> list of (lemma, status, info, seconds), stats"""
    lemmas = list(lemmas)
    # structurally interesting ones (large cones) first
    order = sorted(range(len(lemmas)), key=lambda i: -len(lemmas[i][1][1]))
    out = [None] * len(lemmas)
    stats = []
    if not lemmas: return out, stats
    ctx = mp.get_context('fork')
    with ctx.Pool(procs) as p:
        for i, r, t, d in p.imap_unordered(_one, [(i, lemmas[i], timeout) for i in order], chunksize=4 if len(lemmas) > 200 else 1):
            out[i] = (lemmas[i], r[0], r[1], t); stats.append(d)
            if log and t > log: print('slow lemma', round(t, 2), r, lemmas[i][0], lemmas[i][2:], str(lemmas[i][1])[:500], flush=True)
    return out, stats
