import sys
from hypothesis import strategies as st
import common, c21, c22
from model import *

ID = "C25"
MODULE = "c25"
EXAMPLES = {"quick": 6000, "thorough": 120000}
RULE = ("an index of either kind, a history of valid calls with failing calls between them, and queries; non-trivial if a call "
        "failed while the index held documents and valid calls and queries followed")
ASSUMPTIONS = ["the index is compared with a second one that got the valid calls of the history only, in the same form"]

IDS = ["abc", 1.5, None, 2**63, -2**63 - 1, b"1", [1]]
DOCS = [None, 17, b"kestrel marble", "kestrel \ud800 marble", ["kestrel"], 2.5]
RETURNS = [None, 17, ["kestrel", 3], [b"kestrel"], ["kestrel", "\ud800"], [["kestrel"]], ["marble", None]]
FORMS = ["insert", "bulk", "bulk", "bulk", "query", "query with scores", "bulk query", "bulk query with scores", "remove"]


@st.composite
def strategy(draw):
    kind = draw(st.sampled_from(["min", "sim"]))
    common_opt = {"analyzer": draw(st.sampled_from(["word", "char"])), "callable": draw(st.booleans()), "lowercase": draw(st.booleans()),
                  "ngram": draw(st.sampled_from([None, None, (1, 2), (2, 2), (2, 3)])), "raw": draw(st.integers(0, 2)) == 0, "omit": False}
    if kind == "min":
        opt = dict(common_opt, hash_size=draw(st.sampled_from([8, 16, 32, 64])), container=draw(st.sampled_from(["set", "vec", "smallvec"])),
                   thr=draw(st.sampled_from([0.0, 0.3, 0.5, 0.8])), layout=draw(st.sampled_from([[42, 3, None], [20, 5, None], [25, 1, None], [None, None, 60]])))
        if opt["layout"][0] is None and opt["thr"] == 0.0:
            opt["thr"] = 0.2
    else:
        b, d = draw(st.sampled_from([(6, 5), (5, 3), (8, 6), (4, 1), (32, 31)]))
        opt = dict(common_opt, hash_size=draw(st.sampled_from([64, 128])), blocks=b, dist=d)
    if opt["callable"]:
        opt["lowercase"], opt["ngram"] = False, None
    docs = draw(corpus(8))
    di = st.integers(0, len(docs) - 1)
    pairs = st.lists(st.tuples(st.integers(0, 9), di), max_size=6)
    fault = st.tuples(st.just("bad"), st.sampled_from(FORMS), st.sampled_from(["id", "doc", "doc", "raise"]), st.integers(0, 6),
                      st.integers(0, 1000), st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 9), st.sampled_from([99, 100, 101, 150])), st.integers(0, 9), di)
    op = st.one_of(st.tuples(st.just("ins"), st.integers(0, 9), di), st.tuples(st.just("ins"), st.integers(0, 9), di), st.tuples(st.just("rm"), st.integers(0, 9)),
                   st.tuples(st.just("bulk"), pairs), fault, fault, fault)
    good = st.one_of(st.tuples(st.just("ins"), st.integers(0, 9), di), st.tuples(st.just("bulk"), pairs))
    ops = [draw(good)] + draw(st.lists(op, min_size=1, max_size=12)) + [draw(good)]
    return {"kind": kind, "opt": opt, "docs": docs, "ops": [list(o) for o in ops], "queries": draw(st.lists(di, min_size=1, max_size=4)),
            "reenter": draw(st.integers(0, 3)) == 0}


class Own(Exception):
    pass


class Analyzer:
    """A user analyzer. It fails on the n-th call from now if told so, and may use the index itself."""

    def __init__(self, opt):
        self.opt, self.fail, self.what, self.index, self.inside, self.seen = opt, None, None, None, False, []

    def __call__(self, d):
        if self.index is not None and not self.inside:
            self.inside = True
            try:
                self.seen.append(sorted(self.index.query(" ".join(POOL[:6]))))
            finally:
                self.inside = False
        elif self.inside:
            return features(self.opt, d)
        if self.fail is not None:
            self.fail -= 1
            if self.fail < 0:
                if self.what is Own:
                    raise Own("no features")
                return self.what
        return features(self.opt, d)


def build(c, an):
    if c["kind"] == "min":
        return c21.make(c["opt"], **({"fn": an} if an else {}))
    return c22.make(c["opt"], an)


def picture(c, m, qs):
    """Everything that can be observed."""
    score = "return_similarity" if c["kind"] == "min" else "return_hamming_distance"
    out = [sorted(m.query(q)) for q in qs] + [sorted(m.query(q, **{score: True})) for q in qs]
    out += [[sorted(a) for a in m.par_bulk_query(qs)], [sorted(a) for a in m.par_bulk_query(qs, return_similarity=True)]]
    if c["kind"] == "min":
        out += [m.size(), str(m), repr(m)]
    return out


def bulk_insert(m, ids, docs):
    if hasattr(m, "par_bulk_insert_docs"):
        m.par_bulk_insert_docs(ids, docs)
        return True
    return False


def check(c, ctx):
    opt, docs = c["opt"], c["docs"]
    ans = [Analyzer(opt), Analyzer(opt)] if opt["callable"] else [None, None]
    m, t = build(c, ans[0]), build(c, ans[1])
    qs = [docs[q] for q in c["queries"]] + [docs[0], POOL[0]]
    live, failed, after = set(), 0, False
    ctx.label(f"{c['kind']} index, {'callable' if opt['callable'] else 'built-in'} analyzer")
    for op in c["ops"]:
        if op[0] == "bad":
            form, what, which, where, n, i, d = op[1:]
            if c["kind"] == "sim" and form == "remove":
                form = "insert"
            if form == "bulk" and not hasattr(m, "par_bulk_insert_docs"):
                form = "insert"
            if form == "remove":
                what = "id"
            elif "query" in form and what == "id":
                what = "doc"
            single = form in ("insert", "query", "query with scores", "remove")
            n = 1 if single else n
            at = where % n
            ids = [(i + k) % (13 if n < 20 else 997) for k in range(n)]
            ds = [docs[(d + k) % len(docs)] for k in range(n)]
            before = picture(c, m, qs)
            if what == "id":
                ids[at] = IDS[which % len(IDS)]
            elif not opt["callable"]:
                ds[at] = DOCS[which % len(DOCS)]
            else:
                ans[0].fail, ans[0].what = at, Own if what == "raise" else RETURNS[which % len(RETURNS)]
            score = {"return_similarity" if c["kind"] == "min" or "bulk" in form else "return_hamming_distance": True} if "scores" in form else {}
            call = {"insert": lambda: m.insert_document(ids[0], ds[0]), "remove": lambda: m.remove(ids[0]),
                    "query": lambda: m.query(ds[0]), "query with scores": lambda: m.query(ds[0], **score),
                    "bulk query": lambda: m.par_bulk_query(ds), "bulk query with scores": lambda: m.par_bulk_query(ds, **score)}
            try:
                if form == "bulk":
                    m.par_bulk_insert_docs(ids, ds)
                else:
                    call[form]()
            except Exception as e:
                if what == "raise" and opt["callable"]:
                    assert isinstance(e, Own), f"{op}: the analyzer's exception became {e!r}"
            else:
                raise AssertionError(f"{op}: {form} with a bad {what} at {at} of {n} did not fail")
            finally:
                if ans[0]:
                    ans[0].fail = None
            failed += bool(live)
            ctx.comparisons += 1
            ctx.label("failing " + form + (" of 100 or more" if n >= 100 else ""))
            now = picture(c, m, qs)
            assert now == before, f"{form} with a bad {what} at {at} of {n} failed and changed the index: {diff(before, now)}"
            continue
        if c["reenter"] and ans[0] and op[0] == "ins":
            want = sorted(m.query(" ".join(POOL[:6])))
            ans[0].index, ans[0].seen = m, []
        for x in (m, t):
            if op[0] == "ins":
                x.insert_document(op[1], docs[op[2]])
            elif op[0] == "bulk":
                if not bulk_insert(x, [p[0] for p in op[1]], [docs[p[1]] for p in op[1]]):
                    for i, d in op[1]:
                        x.insert_document(i, docs[d])
            elif c["kind"] == "min":
                x.remove(op[1])
        if ans[0] and ans[0].index is not None:
            assert ans[0].seen == [want], f"an analyzer that queries the index during an insertion saw {ans[0].seen}, before it {want}"
            ans[0].index = None
            ctx.label("analyzer uses the index")
        if op[0] == "ins":
            live.add(op[1])
        elif op[0] == "bulk":
            live |= {p[0] for p in op[1]}
        elif c["kind"] == "min":
            live.discard(op[1])
        after = after or failed > 0
        ctx.comparisons += 1
        a, b = picture(c, m, qs), picture(c, t, qs)
        assert a == b, f"after {op}, {failed} calls having failed earlier: {diff(b, a)}"
    if failed and after:
        ctx.nontrivial = True


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{str(y)[:300]}, expected {str(x)[:300]}"
    return "?"


if __name__ == "__main__":
    sys.exit(common.main(sys.modules["__main__"]))
