"""The documented meaning of the analyzers, and document generators."""
from hypothesis import strategies as st
import string

SEP = set(string.punctuation) | set(" \t\n\r\x0c")


def words(doc):
    out, cur = [], []
    for ch in doc:
        if ch in SEP:
            if cur:
                out.append("".join(cur))
            cur = []
        else:
            cur.append(ch)
    if cur:
        out.append("".join(cur))
    return out


def features(opt, doc):
    """The features of a document: strings, or tuples of words for word n-grams."""
    if opt["lowercase"]:
        doc = doc.lower()
    seq = words(doc) if opt["analyzer"] == "word" else doc
    rng = opt["ngram"]
    if rng is None:
        if opt["analyzer"] == "word":
            return seq
        rng = (3, 4)
    out = []
    for n in range(rng[0], rng[1] + 1):
        for i in range(len(seq) - n + 1):
            g = seq[i:i + n]
            out.append(g if isinstance(g, str) else tuple(g))
    return out


def exact_twin(opt):
    """Word n-grams are hashed as word tuples, which no callable can return."""
    return opt["analyzer"] == "char" or opt["ngram"] is None


def restyle(doc, opt, k):
    """A different document with the same features (word analysis only)."""
    seps = [" ", ",", ". ", "\t", " - ", "\n", "!? "]
    ws = words(doc)
    if opt["lowercase"]:
        ws = [w.upper() if w.isascii() and (i + k) % 2 else w for i, w in enumerate(ws)]
    return ("(" if k % 2 else "") + "".join(w + seps[(i + k) % len(seps)] for i, w in enumerate(ws))


POOL = ("kestrel marble oxide tundra velvet quorum zephyr banjo cipher dynamo ember fjord glyph harbor indigo jigsaw "
        "lantern mosaic nectar orchid pylon quartz ripple saffron timber umbra vortex willow xenon yonder anvil bramble "
        "cobalt drizzle easel fathom garnet hazel ivory juniper").split()
WILD = "aAbBcC01 .,-_'\tßéÉñΩωжЖ中文😀\u00a0\u2003\u0301İ\x0b\x85"

pool_doc = st.lists(st.sampled_from(POOL), min_size=0, max_size=14).map(" ".join)
cap_doc = st.lists(st.sampled_from(POOL + [w.upper() for w in POOL[:12]] + [w.title() for w in POOL[:12]]), max_size=12).map(" ".join)
wild_doc = st.text(alphabet=WILD, max_size=24)
family = st.tuples(st.lists(st.sampled_from(POOL), min_size=6, max_size=20), st.integers(0, 19), st.sampled_from(POOL)).map(
    lambda t: " ".join(t[0][:t[1] % len(t[0])] + [t[2]] + t[0][t[1] % len(t[0]):]))

# one word many times: the number of different n-grams, and which one dominates, depends on the range alone
repeat_doc = st.tuples(st.sampled_from(POOL[:3]), st.one_of(st.integers(1, 9), st.sampled_from([130, 260])),
                       st.lists(st.sampled_from(POOL[:6]), max_size=3), st.booleans()).map(
    lambda t: " ".join(t[2] + [t[0]] * t[1]) if t[3] else " ".join([t[0]] * t[1] + t[2]))
plain_repeat = st.tuples(st.sampled_from(POOL[:2]), st.integers(1, 9)).map(lambda t: " ".join([t[0]] * t[1]))
long_doc = st.tuples(st.sampled_from([300, 1100, 4200]), st.integers(0, 3), st.integers(0, 2)).map(
    lambda t: " ".join(f"{POOL[(k * 7 + t[1]) % len(POOL)]}{'' if t[2] == 0 else k % 997}" for k in range(t[0])))


@st.composite
def corpus(draw, size=10):
    """Documents with many near-duplicates and duplicates among them."""
    docs = draw(st.lists(st.one_of(pool_doc, cap_doc, wild_doc, family, repeat_doc, plain_repeat), min_size=1, max_size=size // 2))
    if draw(st.integers(0, 60)) == 0:
        docs.append(draw(long_doc))
    for _ in range(draw(st.integers(0, size - len(docs)))):
        base = docs[draw(st.integers(0, len(docs) - 1))]
        ws = base.split(" ")
        kind = draw(st.integers(0, 3))
        if kind == 0 and ws:
            ws[draw(st.integers(0, len(ws) - 1))] = draw(st.sampled_from(POOL))
            docs.append(" ".join(ws))
        elif kind == 1:
            docs.append(base + " " + draw(st.sampled_from(POOL)))
        elif kind == 2:
            docs.append(base.swapcase())
        else:
            docs.append(base)
    return docs
