import itertools, json, re, sys
from hypothesis import strategies as st
import common
from model import *

ID = "C21"
MODULE = "c21"
EXAMPLES = {"quick": 16000, "thorough": 160000}
RULE = ("options, a history of single/bulk insertions and removals over a generated corpus, and queries; non-trivial if some "
        "query returns a proper non-empty subset of the live ids, or an invalid option is tried")
ASSUMPTIONS = ["str.lower() of CPython and Rust agree on the characters generated",
               "similarities of word n-grams are compared with the true Jaccard similarity within 7 standard deviations plus 0.03 + 4/n"]

ngram = st.one_of(st.none(), st.sampled_from([(1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (1, 5), (2, 5), (3, 4), (4, 4), (1, 4), (1, 6), (2, 6), (5, 5), (3, 7)]))
ids = st.one_of(st.integers(0, 8), st.sampled_from([-1, 2**63 - 1, -2**63, 12345678901]))


@st.composite
def strategy(draw):
    if draw(st.integers(0, 39)) == 0:
        return {"invalid": draw(st.sampled_from(["hash_size", "thr_low", "thr_high", "container", "layout"])), "v": draw(st.integers(0, 200))}
    opt = {"hash_size": draw(st.sampled_from([8, 16, 32, 64])), "container": draw(st.sampled_from(["set", "vec", "smallvec"])),
           "analyzer": draw(st.sampled_from(["word", "word", "char"])), "callable": draw(st.integers(0, 3)) == 0,
           "lowercase": draw(st.booleans()), "ngram": draw(ngram), "thr": draw(st.sampled_from([0.0, 0.2, 0.5, 0.5, 0.6, 0.75, 0.8, 1.0]))}
    if opt["callable"]:
        # a callable gets the raw document: the other two options must not matter
        opt["ignored"] = [draw(st.booleans()), draw(ngram)]
        opt["lowercase"] = False
        opt["ngram"] = None
    opt["raw"] = draw(st.integers(0, 3)) == 0
    opt["omit"] = draw(st.booleans())
    if draw(st.integers(0, 3)) == 0:
        opt["layout"] = [None, None, draw(st.integers(1, 300))]
        opt["thr"] = draw(st.sampled_from([0.2, 0.5, 0.8]))
    else:
        opt["layout"] = draw(st.sampled_from([[42, 3, None], [20, 5, None], [1, 1, None], [25, 1, None], [200, 2, None], [1000, 1, None], [20, 5, None], [100, 1, 7], [3, 2, 500]]))
    docs = draw(corpus())
    di = st.integers(0, len(docs) - 1)
    op = st.one_of(
        st.tuples(st.just("ins"), ids, di), st.tuples(st.just("ins"), ids, di), st.tuples(st.just("rm"), ids), st.tuples(st.just("q"), di),
        st.tuples(st.just("bulk"), st.lists(st.tuples(ids, di), max_size=6)))
    ops = draw(st.lists(op, max_size=9))
    if draw(st.integers(0, 7)) == 0:
        size = st.one_of(st.sampled_from([20, 98, 99, 100, 101, 130, 260]), st.integers(7, 400))
        b, r, h = opt["layout"]
        if (h or b * r) <= 100 and draw(st.integers(0, 9)) == 7:
            size = st.one_of(st.sampled_from([512, 1000, 1024, 2048]), st.integers(400, 2500))
        ops.insert(draw(st.integers(0, len(ops))), draw(st.tuples(st.just("big"), size, st.integers(0, 50), di)))
    queries = draw(st.lists(di, min_size=1, max_size=4))
    return {"opt": opt, "docs": docs, "ops": [list(o) for o in ops], "queries": queries, "style": draw(st.integers(0, 6))}


class Raw:
    """The compiled class itself, with the interface of the documented one."""

    def __init__(self, o, args, fn):
        import gaoya
        cls = f"MinHash{o['hash_size']}StringIntIndex" + {"set": "HashSet", "vec": "Vec", "smallvec": "SmallVec"}[o["container"]]
        self.x, self.fn = getattr(gaoya.gaoya.minhash, cls)(*args), fn
        self.remove, self.size = self.x.remove, self.x.size

    def insert_document(self, i, d):
        self.x.insert_tokens(i, self.fn(d)) if self.fn else self.x.insert_document(i, d)

    def par_bulk_insert_docs(self, ids, docs):
        if self.fn:
            self.x.par_bulk_insert_tokens(ids, [self.fn(d) for d in docs])
        else:
            self.x.par_bulk_insert_docs(ids, docs)

    def query(self, d, return_similarity=False):
        if self.fn:
            return (self.x.query_tokens_return_similarity if return_similarity else self.x.query_tokens)(self.fn(d))
        return (self.x.query_return_similarity if return_similarity else self.x.query)(d)

    def par_bulk_query(self, ds, return_similarity=False):
        if self.fn:
            ds = [self.fn(d) for d in ds]
            return (self.x.par_bulk_query_tokens_return_similarity if return_similarity else self.x.par_bulk_query_tokens)(ds)
        return (self.x.par_bulk_query_return_similarity if return_similarity else self.x.par_bulk_query)(ds)

    def __str__(self):
        return str(self.x)

    def __repr__(self):
        return repr(self.x)


DEFAULTS = {"hash_size": 32, "jaccard_threshold": 0.75, "band_size": 5, "num_hashes": None, "analyzer": "word", "lowercase": False,
            "ngram_range": None, "id_container": "set"}


def make(opt, **kw):
    import gaoya
    o = dict(opt)
    o.update(kw)
    if o.get("ignored"):
        o["lowercase"], o["ngram"] = o["ignored"]
    b, r, n = o["layout"]
    an = o["analyzer"]
    ng = o["ngram"]
    if "fn" in kw:
        an = kw["fn"]
    ng = tuple(ng) if ng else None
    if o.get("raw") and hasattr(getattr(gaoya, "gaoya", None), "minhash"):
        return Raw(o, (o["thr"], b, r, n, "word" if "fn" in kw else an, o["lowercase"], ng), kw.get("fn"))
    args = {"hash_size": o["hash_size"], "jaccard_threshold": o["thr"], "num_bands": b, "band_size": r, "num_hashes": n, "analyzer": an,
            "lowercase": o["lowercase"], "ngram_range": ng, "id_container": o["container"]}
    if o.get("omit"):
        # documented defaults may be left out
        return gaoya.minhash.MinHashStringIndex(**{k: v for k, v in args.items() if k not in DEFAULTS or v != DEFAULTS[k] or type(v) != type(DEFAULTS[k])})
    return gaoya.minhash.MinHashStringIndex(*args.values())


def invalid(c):
    import gaoya
    M = gaoya.minhash.MinHashStringIndex
    v = c["v"]
    kw = {"hash_size": {"hash_size": [h for h in (v, 0, 24, 128) if h not in (8, 16, 32, 64)][0]},
          "thr_low": {"jaccard_threshold": -0.001 - v}, "thr_high": {"jaccard_threshold": 1.001 + v},
          "container": {"id_container": ["", "list", "Set", "hashset"][v % 4]},
          "layout": {"num_bands": None if v % 2 else 20, "band_size": 5 if v % 2 else None, "num_hashes": None}}[c["invalid"]]
    try:
        M(**kw)
    except ValueError:
        return
    raise AssertionError(f"MinHashStringIndex({kw}) did not raise ValueError")


def expand(op, docs):
    """(id, doc) pairs of an insertion."""
    if op[0] == "ins":
        return [(op[1], docs[op[2]])]
    if op[0] == "bulk":
        return [(i, docs[d]) for i, d in op[1]]
    n, start, d = op[1], op[2], op[3]
    return [((start + k) % (110 if start % 2 else 100003), docs[(d + k) % len(docs)] + (" " + POOL[k % len(POOL)] if k % 3 else "")) for k in range(n)]


def agree(m, t, twin_opt, tk, live, stale, q, got, thr, when):
    """Compares an answer with the one-at-a-time index. Ids that were overwritten while live may
    still sit in their old buckets or not: for those only the bounds hold (every document sharing a
    band and similar enough is there; nothing is there below the threshold or with another similarity)."""
    want = {i: s for i, s in t.query(q, return_similarity=True) if s >= thr}
    bad = {i for i in set(got) | set(want) if got.get(i) != want.get(i)}
    assert bad <= stale, f"{q!r}: {got}, expected {want} (thr {thr}) from one-at-a-time use {when}"
    if bad:
        b, r = [int(x) for x in re.search(r"bands = (\d+), rows_per_band = (\d+)", str(m)).groups()]
        fresh, full = make(twin_opt, **tk), make(dict(twin_opt, thr=0.0, layout=[b * r, 1, None]), **tk)
        for i in bad & set(live):
            fresh.insert_document(i, live[i])
            full.insert_document(i, live[i])
        must = {i for i, s in fresh.query(q, return_similarity=True) if s >= thr}
        sim = dict(full.query(q, return_similarity=True))
        for i in bad:
            s = sim.get(i, 0.0)
            if i in must or i in got:
                assert i in live and got.get(i) == s and s >= thr, f"{q!r}: id {i} with {got.get(i)}, its similarity is {s} (thr {thr}) {when}"


def check(c, ctx):
    if "invalid" in c:
        ctx.nontrivial = True
        ctx.label("invalid option")
        return invalid(c)
    opt, docs = c["opt"], c["docs"]
    feat = lambda d: features(opt, d)
    given = (lambda d: tuple(feat(d))) if c["style"] % 2 else feat
    an = {"fn": given} if opt["callable"] else {}
    if opt.get("raw"):
        ctx.label("compiled class")
    if opt.get("omit"):
        ctx.label("defaults left out")
    m = make(opt, **an)
    stale = set()
    seen = {}
    for op in c["ops"]:
        if op[0] == "rm":
            seen.pop(op[1], None)
        elif op[0] != "q":
            for i, d in expand(op, docs):
                if i in seen:
                    stale.add(i)
                seen[i] = d
    twin_opt = dict(opt, thr=0.0, raw=False, omit=False, ignored=None)
    if opt["layout"][0] is None:
        twin_opt["thr"] = opt["thr"]
    if not stale:
        twin_opt["container"] = {"set": "vec", "vec": "smallvec", "smallvec": "set"}[opt["container"]]
        ctx.label("container compared")
    tk = {"fn": feat} if exact_twin(opt) else {}
    t = make(twin_opt, **tk)
    live = {}
    for op in c["ops"]:
        if op[0] == "rm":
            m.remove(op[1])
            t.remove(op[1])
            live.pop(op[1], None)
        elif op[0] == "q":
            q = docs[op[1]]
            got = m.query(q, return_similarity=True)
            assert len(dict(got)) == len(got), f"{q!r}: {got} repeats ids"
            agree(m, t, twin_opt, tk, live, stale, q, dict(got), opt["thr"], "in the middle of the history")
            assert sorted(m.query(q)) == sorted(dict(got)), f"{q!r}: {m.query(q)}, with similarities {got} in the middle of the history"
            ctx.label("query between changes")
        else:
            ps = expand(op, docs)
            if op[0] == "ins":
                m.insert_document(ps[0][0], ps[0][1])
            else:
                m.par_bulk_insert_docs([p[0] for p in ps], [p[1] for p in ps])
                if len(ps) >= 100:
                    ctx.label("batch of 100 or more" if len(ps) < 400 else "batch of 400 or more")
            for i, d in ps:
                t.insert_document(i, d)
                live[i] = d
        assert m.size() == len(live), f"size {m.size()}, {len(live)} live ids after {op}"
    ctx.label(f"{opt['hash_size']} bit")
    ctx.label("callable" if opt["callable"] else opt["analyzer"] + (" n-grams" if opt["ngram"] else ""))
    qs = [docs[q] for q in c["queries"]]
    if opt["analyzer"] == "word":
        qs.append(restyle(qs[0], opt, c["style"]))
    qs += list(live.values())[:3]
    if c["style"] == 6 and len(c["ops"]) % 3 == 0:
        qs += list(live.values())[3:403]
        qs += [qs[0]] * (101 - len(qs))
        ctx.label("bulk query of more than 100 documents")
    one = {q: (m.query(q), m.query(q, return_similarity=True)) for q in dict.fromkeys(qs)}
    plain, sims = [one[q][0] for q in qs], [one[q][1] for q in qs]
    bp, bs = m.par_bulk_query(qs), m.par_bulk_query(qs, return_similarity=True)
    assert len(bp) == len(bs) == len(qs), "bulk query answers are not one per document"
    nb = opt["layout"][0]
    n = nb * opt["layout"][1] if nb else None
    lf = {i: (frozenset(feat(d))) for i, d in live.items()}
    thr = opt["thr"]
    done = set()
    for k, q in enumerate(qs):
        ctx.comparisons += 1
        ps = set(plain[k])
        assert len(ps) == len(plain[k]), f"query {q!r} repeats ids: {plain[k]}"
        assert ps <= set(live), f"query {q!r} returned ids that are not live: {ps - set(live)}"
        assert set(bp[k]) == ps and len(bp[k]) == len(ps), f"bulk query {bp[k]} differs from single {plain[k]} for {q!r}"
        assert sorted(i for i, _ in sims[k]) == sorted(ps), f"with similarities {sims[k]}, without {plain[k]} for {q!r}"
        assert all(a[1] >= b[1] for a, b in zip(sims[k], sims[k][1:])), f"similarities not descending: {sims[k]}"
        assert dict(bs[k]) == dict(sims[k]) and len(bs[k]) == len(sims[k]) and [s for _, s in bs[k]] == [s for _, s in sims[k]], f"bulk {bs[k]} vs single {sims[k]}"
        if q in done:
            continue
        done.add(q)
        got = dict(sims[k])
        agree(m, t, twin_opt, tk, live, stale, q, got, thr, "of the documented features" if tk else "")
        fq = frozenset(feat(q))
        for i, f in lf.items():
            if f == fq:
                assert got.get(i) == 1.0, f"{q!r} has the features of {live[i]!r} (id {i}), similarity {got.get(i)}"
        for i, s in got.items():
            assert thr <= s <= 1.0, f"similarity {s} outside of [{thr}, 1]"
            if n:
                assert abs(s * n - round(s * n)) < 1e-6, f"similarity {s} is not a multiple of 1/{n}"
                if n >= 60 and opt["hash_size"] >= 32 and (fq or lf[i]):
                    j = len(fq & lf[i]) / len(fq | lf[i])
                    if n >= 60 and j ** n < 1e-12:
                        assert s < 1.0, f"{q!r} and {live[i]!r} have different features (Jaccard {j}) but similarity {s}"
                    pooled = all(all(w.lower() in POOLSET for w in words(x)) for x in (q, live[i]))
                    if pooled and opt["analyzer"] == "word":
                        tol = 0.03 + 7 * (j * (1 - j) / n) ** 0.5 + 4 / n
                        if CAL:
                            print("CAL", n, round(j, 3), round(s - j, 3), len(fq | lf[i]))
                        assert abs(s - j) <= tol, f"similarity {s} of {q!r} and {live[i]!r}, Jaccard {j} (tolerance {tol:.3f})"
                        ctx.label("similarity vs Jaccard")
        if ps and len(ps) < len(live):
            ctx.nontrivial = True
    if opt["analyzer"] == "word":
        k = len(c["queries"])
        assert dict(sims[k]) == dict(sims[0]), f"{qs[0]!r} and {qs[k]!r} have the same words but answers {sims[0]} / {sims[k]}"
    text = str(m)
    assert text == repr(m)
    assert f"u{opt['hash_size']}>" in text and f"size = {len(live)} " in text, f"printed form {text}"
    shown = {k: float(v) for k, v in re.findall(r"(\w+) = ([0-9.eE+-]+)", text)}
    assert abs(shown["threshold"] - thr) < 1e-9, f"printed form {text}, threshold {thr}"
    if not n:
        b, r, h = shown["bands"], shown["rows_per_band"], shown["num_hashes"]
        assert b >= 1 and r >= 1 and b * r == h <= opt["layout"][2] < h + r, f"printed form {text} for a budget of {opt['layout'][2]} hashes"
    if n:
        assert f"bands = {nb}," in text and f"rows_per_band = {opt['layout'][1]}," in text and f"num_hashes = {n}," in text, f"printed form {text}"


POOLSET = set(POOL)
CAL = False
if __name__ == "__main__":
    sys.exit(common.main(sys.modules["__main__"]))
