import math, sys
from hypothesis import strategies as st
import common
from model import *

ID = "C22"
MODULE = "c22"
EXAMPLES = {"quick": 16000, "thorough": 160000}
RULE = ("options, a history of insertions (with overwrites) over a generated corpus, and queries; non-trivial if some query "
        "returns a proper non-empty subset of the live ids, or an invalid option is tried")
ASSUMPTIONS = ["str.lower() of CPython and Rust agree on the characters generated",
               "distances are taken from a second index with 32 blocks and radius 31 that was filled one document at a time (its own exactness is property C14)"]

ngram = st.one_of(st.none(), st.sampled_from([(1, 1), (1, 2), (2, 2), (1, 3), (2, 3), (3, 3), (1, 5), (2, 5), (3, 4), (4, 4), (1, 4), (1, 6), (2, 6), (5, 5)]))
ids = st.one_of(st.integers(0, 8), st.sampled_from([-1, 2**63 - 1, -2**63, 12345678901]))
LEGAL = [(b, d) for b in range(3, 33) for d in range(0, b) if math.comb(b, d) <= 130]


@st.composite
def strategy(draw):
    if draw(st.integers(0, 39)) == 0:
        return {"invalid": draw(st.sampled_from(["hash_size", "few", "many", "distance", "analyzer"])), "v": draw(st.integers(0, 200))}
    b, d = draw(st.one_of(st.sampled_from(LEGAL), st.sampled_from([(6, 5), (8, 6), (5, 3), (32, 31), (20, 19), (10, 9)])))
    opt = {"hash_size": draw(st.sampled_from([64, 128])), "blocks": b, "dist": d,
           "analyzer": draw(st.sampled_from(["word", "word", "char"])), "callable": draw(st.integers(0, 3)) == 0,
           "lowercase": draw(st.booleans()), "ngram": draw(ngram)}
    if opt["callable"]:
        # a callable gets the raw document: the other two options must not matter
        opt["ignored"] = [draw(st.booleans()), draw(ngram)]
        opt["lowercase"] = False
        opt["ngram"] = None
    opt["raw"] = draw(st.integers(0, 3)) == 0
    opt["omit"] = draw(st.booleans())
    docs = draw(corpus(12))
    di = st.integers(0, len(docs) - 1)
    ops = draw(st.lists(st.one_of(st.tuples(ids, di), st.tuples(ids, di), st.tuples(ids, di), st.tuples(st.just("q"), di)), max_size=14))
    if opt["raw"]:
        bulk = st.tuples(st.just("bulk"), st.lists(st.tuples(ids, di), max_size=6))
        big = st.tuples(st.just("big"), st.one_of(st.sampled_from([20, 99, 100, 101, 160]), st.integers(7, 250)) if draw(st.integers(0, 14)) != 11 else st.integers(250, 2500), st.integers(0, 50), di)
        for o in draw(st.lists(st.one_of(bulk, bulk, big), max_size=2)):
            ops.insert(draw(st.integers(0, len(ops))), o)
    return {"opt": opt, "docs": docs, "ops": [list(o) for o in ops], "queries": draw(st.lists(di, min_size=1, max_size=5)),
            "style": draw(st.integers(0, 6))}


class Raw:
    """The compiled class itself, with the interface of the documented one and its bulk insertions."""

    def __init__(self, o, args, fn):
        import gaoya
        self.x, self.fn = getattr(gaoya.gaoya.simhash, f"SimHash{o['hash_size']}StringIntIndex")(*args), fn

    def insert_document(self, i, d):
        self.x.insert_tokens(i, self.fn(d)) if self.fn else self.x.insert_document(i, d)

    def par_bulk_insert_docs(self, ids, docs):
        if self.fn:
            self.x.par_bulk_insert_tokens(ids, [self.fn(d) for d in docs])
        else:
            self.x.par_bulk_insert_docs(ids, docs)

    def query(self, d, return_hamming_distance=False):
        if self.fn:
            return (self.x.query_tokens_return_distance if return_hamming_distance else self.x.query_tokens)(self.fn(d))
        return (self.x.query_return_distance if return_hamming_distance else self.x.query)(d)

    def par_bulk_query(self, ds, return_similarity=False):
        if self.fn:
            ds = [self.fn(d) for d in ds]
            return (self.x.par_bulk_query_tokens_return_similarity if return_similarity else self.x.par_bulk_query_tokens)(ds)
        return (self.x.par_bulk_query_return_distance if return_similarity else self.x.par_bulk_query)(ds)


DEFAULTS = {"hash_size": 64, "num_blocks": 6, "hamming_distance": 5, "analyzer": "word", "lowercase": False, "ngram_range": None}


def make(opt, fn=None, **kw):
    import gaoya
    o = dict(opt, **kw)
    if o.get("ignored"):
        o["lowercase"], o["ngram"] = o["ignored"]
    ng = tuple(o["ngram"]) if o["ngram"] else None
    if o.get("raw") and hasattr(getattr(gaoya, "gaoya", None), "simhash"):
        return Raw(o, (o["blocks"], o["dist"], "word" if fn else o["analyzer"], o["lowercase"], ng), fn)
    args = {"hash_size": o["hash_size"], "num_blocks": o["blocks"], "hamming_distance": o["dist"], "analyzer": fn or o["analyzer"],
            "lowercase": o["lowercase"], "ngram_range": ng}
    if o.get("omit"):
        return gaoya.simhash.SimHashStringIndex(**{k: v for k, v in args.items() if v != DEFAULTS[k] or type(v) != type(DEFAULTS[k])})
    return gaoya.simhash.SimHashStringIndex(*args.values())


def invalid(c):
    import gaoya
    v = c["v"]
    kw = {"hash_size": {"hash_size": [h for h in (v, 32) if h not in (64, 128)][0]},
          "few": {"num_blocks": v % 3, "hamming_distance": 0}, "many": {"num_blocks": 33 + v, "hamming_distance": 2},
          "distance": {"num_blocks": 3 + v % 30, "hamming_distance": 3 + v % 30 + v % 5},
          "analyzer": {"analyzer": ["words", "", "Char", "char_wb"][v % 4]}}[c["invalid"]]
    try:
        gaoya.simhash.SimHashStringIndex(**kw)
    except ValueError:
        return
    raise AssertionError(f"SimHashStringIndex({kw}) did not raise ValueError")


def counts(fs):
    d = {}
    for f in fs:
        d[f] = d.get(f, 0) + 1
    return d


def shape(cnt):
    """Documents with equal shapes have equal signatures: a feature that outweighs all others
    together decides every bit, and multiplying all weights changes nothing."""
    total = sum(cnt.values())
    for f, k in cnt.items():
        if 2 * k > total:
            return {f: 1}
    g = math.gcd(*cnt.values()) if cnt else 1
    return {f: k // g for f, k in cnt.items()}


def check(c, ctx):
    if "invalid" in c:
        ctx.nontrivial = True
        ctx.label("invalid option")
        return invalid(c)
    opt, docs = c["opt"], c["docs"]
    feat = lambda d: features(opt, d)
    given = (lambda d: tuple(feat(d))) if c["style"] % 2 else feat
    m = make(opt, given if opt["callable"] else None)
    twin = exact_twin(opt)
    t = make(opt, feat if twin else None, blocks=32, dist=31, raw=False, omit=False, ignored=None)
    live = {}
    for op in c["ops"]:
        if op[0] == "q":
            q = docs[op[1]]
            got, want = m.query(q, return_hamming_distance=True), {i: s for i, s in t.query(q, return_hamming_distance=True) if s <= opt["dist"]}
            assert dict(got) == want and len(got) == len(want), f"{q!r}: {got}, expected {want} in the middle of the history"
            assert sorted(m.query(q)) == sorted(want), f"{q!r}: {m.query(q)}, expected {sorted(want)} in the middle of the history"
            ctx.label("query between changes")
            continue
        if op[0] in ("bulk", "big"):
            if op[0] == "bulk":
                ps = [(i, docs[d]) for i, d in op[1]]
            else:
                ps = [((op[2] + k) % (110 if op[2] % 2 else 100003), docs[(op[3] + k) % len(docs)] + (" " + POOL[k % len(POOL)] if k % 3 else "")) for k in range(op[1])]
            if isinstance(m, Raw):
                m.par_bulk_insert_docs([p[0] for p in ps], [p[1] for p in ps])
                ctx.label("bulk insertion" if len(ps) < 100 else "bulk insertion of 100 or more")
            for i, d in ps:
                t.insert_document(i, d)
                if not isinstance(m, Raw):
                    m.insert_document(i, d)
                live[i] = d
            continue
        i, d = op
        m.insert_document(i, docs[d])
        t.insert_document(i, docs[d])
        if i in live and live[i] != docs[d]:
            ctx.label("overwritten id")
        live[i] = docs[d]
    ctx.label(f"{opt['hash_size']} bit")
    ctx.label("callable" if opt["callable"] else opt["analyzer"] + (" n-grams" if opt["ngram"] else ""))
    qs = [docs[q] for q in c["queries"]]
    if opt["analyzer"] == "word":
        qs.append(restyle(qs[0], opt, c["style"]))
    qs += list(live.values())[:3]
    if c["style"] == 6 and len(c["ops"]) % 3 == 0:
        qs += [qs[k % len(qs)] for k in range(101)]
        ctx.label("bulk query of more than 100 documents")
    one = {q: (m.query(q), m.query(q, return_hamming_distance=True)) for q in dict.fromkeys(qs)}
    plain, dist = [one[q][0] for q in qs], [one[q][1] for q in qs]
    bp, bd = m.par_bulk_query(qs), m.par_bulk_query(qs, return_similarity=True)
    assert len(bp) == len(bd) == len(qs), "bulk query answers are not one per document"
    lf = {i: shape(counts(feat(d))) for i, d in live.items()}
    done = set()
    for k, q in enumerate(qs):
        ctx.comparisons += 1
        ps = set(plain[k])
        assert len(ps) == len(plain[k]), f"query {q!r} repeats ids: {plain[k]}"
        assert ps <= set(live), f"query {q!r} returned unknown ids {ps - set(live)}"
        assert set(bp[k]) == ps and len(bp[k]) == len(ps), f"bulk query {bp[k]} differs from single {plain[k]} for {q!r}"
        assert sorted(i for i, _ in dist[k]) == sorted(ps), f"with distances {dist[k]}, without {plain[k]} for {q!r}"
        assert all(a[1] <= b[1] for a, b in zip(dist[k], dist[k][1:])), f"distances not ascending: {dist[k]}"
        assert dict(bd[k]) == dict(dist[k]) and [s for _, s in bd[k]] == [s for _, s in dist[k]], f"bulk {bd[k]} vs single {dist[k]}"
        if q in done:
            continue
        done.add(q)
        got = dict(dist[k])
        want = {i: s for i, s in t.query(q, return_hamming_distance=True) if s <= opt["dist"]}
        assert got == want, f"{q!r}: {got}, expected {want} (radius {opt['dist']}){' from the documented features' if twin else ''}"
        fq = shape(counts(feat(q)))
        for i, f in lf.items():
            if f == fq:
                assert got.get(i) == 0, f"{q!r} has the (weighted) features of {live[i]!r} (id {i}), distance {got.get(i)}"
                if q != live[i] and len(fq) == 1:
                    ctx.label("one dominating feature")
                ctx.label("same features")
        if any(s == opt["dist"] and s > 0 for s in got.values()):
            ctx.label("match exactly at the radius")
        if ps and len(ps) < len(live):
            ctx.nontrivial = True
    if opt["analyzer"] == "word":
        k = len(c["queries"])
        assert dict(dist[k]) == dict(dist[0]), f"{qs[0]!r} and {qs[k]!r} have the same words but answers {dist[0]} / {dist[k]}"


if __name__ == "__main__":
    sys.exit(common.main(sys.modules["__main__"]))
