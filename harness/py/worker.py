"""Runs generated programs against the columbus Python module and a reference model.

    worker.py --module DIR --seed S --start A --count N --status F --out F
    worker.py --module DIR --program FILE --out F

A program is a list of operations on numbered slots (taken modulo the number of live
objects of that kind), so any sub-list of a program is a program too.
"""
import argparse, copy, gc, hashlib, json, os, random, sys, time

DEF, TYPO, GROUP = 100, 30, 30


class Failure(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Failure(msg)


# ------------------------------------------------------------------ reference model
def fold(text):
    out = []
    for c in text:
        l = c.lower() if ord(c) < 0x10000 else c
        out.append("i" if c == "\u0130" else l if len(l) == 1 else c)
    return "".join(out)


def units(text):
    return sum(2 if ord(c) > 0xffff else 1 for c in text)


def letters(text):
    b = text.encode("utf-16-le")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def words_of(text):
    for s in "\t\n\r":
        text = text.replace(s, " ")
    return [fold(w) for w in text.split(" ") if w]


class Costs:
    accents = None
    key_rows = ["1234567890+", "qwertyuiop\xe5", "asdfghjkl\xf6\xe4'", "zxcvbnm,.-"]

    def __init__(self):
        self.end_del = self.start_ins = DEF
        self.limit = 0
        self.single, self.group = {}, {}
        self.standard = False
        self.unknown = False

    def set(self, a, b, e):
        self.single[(min(a, b), max(a, b))] = e

    def sub(self, a, b):
        if a == b:
            return 0
        e = self.single.get((min(a, b), max(a, b)))
        if e is not None:
            return e
        ga = self.group.get(a)
        return GROUP if ga is not None and ga == self.group.get(b) else DEF

    def clear(self):
        self.single, self.group = {}, {}
        self.standard = self.unknown = False

    def add_standard(self):
        for k, line in enumerate(Costs.accents):
            for c in line:
                self.group[ord(c)] = k
        r = self.key_rows
        for i in range(4):
            for j in range(len(r[i])):
                if j + 1 < len(r[i]):
                    self.set(ord(r[i][j]), ord(r[i][j + 1]), TYPO)
                for k in (j - 1, j):
                    if i < 3 and 0 <= k < len(r[i + 1]):
                        self.set(ord(r[i][j]), ord(r[i + 1][k]), TYPO)
        self.standard = True


def distance(q, w, c, lim):
    """The distance, or something above lim when it is above lim (cells that cost more than lim are left out)."""
    n = len(q)
    if q == w:
        return 0
    band, far = lim // DEF, 1 << 40
    down = far if c.start_ins < DEF or c.end_del < DEF else band  # word letters may be cheap to skip
    start = c.start_ins if n >= c.limit else DEF
    r1 = r0 = None
    row = [i * DEF for i in range(n + 1)]
    for j in range(1, len(w) + 1):
        r0, r1, row = r1, row, [j * start] + [far] * n
        for i in range(max(1, j - down), min(n, j + band) + 1):
            b = min(row[i - 1] + DEF, r1[i] + (c.end_del if i == n else DEF), r1[i - 1] + c.sub(q[i - 1], w[j - 1]))
            if i > 1 and j > 1 and q[i - 1] == w[j - 2] and q[i - 2] == w[j - 1]:
                b = min(b, r0[i - 2] + DEF)
            row[i] = b
    return row[n]


class Engine:
    def __init__(self):
        self.costs, self.weights, self.fields = Costs(), {}, {}

    def index(self, docs):
        for did, fields in docs:
            for f, ws in fields.items():
                fl = self.fields.setdefault(f, {})
                for w in ws:
                    e = fl.setdefault(w, [0, set()])
                    e[0] += 1
                    e[1].add(did)

    def match(self, query):
        out = {}
        qs = [(letters(q), DEF if units(q) < 2 else 2 * DEF) for q in query]
        for f, fl in self.fields.items():
            top = max([e[0] for e in fl.values()], default=0)
            for w, (count, docs) in fl.items():
                lw = letters(w)
                es = [e for e, lim in ((distance(q, lw, self.costs, lim), lim) for q, lim in qs) if e <= lim]
                if es:
                    rel = 100.0 / (100.0 + min(es)) * (1.0 - count / float(top + 1)) * self.weights.get(f, 1.0)
                    for d in docs:
                        out[d] = out.get(d, 0.0) + rel
        return out


# ------------------------------------------------------------------ generator
ALPHAS = ["ab", "abcd", "aAbB", "aeA\xe9\xc9\xe8", "\xf6o\xd6\xe4q", "\u03c3\u03c2\u03a3\u03b1\u03ac", "a\u4e2d\u6587", "a\U0001d54f\U00010400", "a1+'", "\u0130i\u0131I"]
BAD_BYTES = [b"\xff", b"ab\xc3", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"a\x80"]


def gen_word(r, alpha, lo=1, hi=6):
    return "".join(r.choice(alpha) for _ in range(r.randint(lo, hi)))


def gen_program(seed, index):
    r = random.Random("%d:%d" % (seed, index))
    alpha = r.choice(ALPHAS)
    vocab = [gen_word(r, alpha) for _ in range(r.randint(2, 10))]
    if r.random() < 0.05:
        # Sizes next to powers of two, where buffers and counters end.
        for _ in range(r.randint(1, 2)):
            n = max(1, (1 << r.randint(4, 9)) + r.randint(-2, 2))
            vocab.append("".join(r.choice(alpha) for _ in range(n)) if r.random() < 0.5 else r.choice(alpha) * n)
    fields = [gen_word(r, "fgt", 1, 3) for _ in range(r.randint(1, 3))] + [vocab[0]]

    def word():
        w = r.choice(vocab)
        k = r.randrange(6)
        if k == 0:
            i = r.randrange(len(w))
            w = w[:i] + r.choice(alpha) + w[i + 1:]
        elif k == 1:
            w = w.upper() if len(w.upper()) == len(w) else w
        elif k == 2 and len(w) > 1:
            i = r.randrange(len(w) - 1)
            w = w[:i] + w[i + 1] + w[i] + w[i + 2:]
        return w

    def text():
        n = r.choice([0, 1, 1, 2, 3, 5, 12]) if r.random() < 0.97 else r.choice([40, 70, 130, 260])
        if n > 12 and any(len(w) > 40 for w in vocab) or r.random() < 0.5:
            n = 12
        return r.choice(["", " ", "\n"]) + "".join(word() + r.choice([" ", "  ", "\t", "\n", "\r\n"]) for _ in range(n))

    def letter():
        return r.choice([ord(r.choice("abcdeqw\xe9\xe8\u03b1\u4e2d"))] + [u for c in alpha for u in letters(c)])

    def ref():
        return r.randrange(1 << 16)

    search = r.random() < 0.5
    ops = []
    if search:
        n = r.randint(1, 6)
        ops.append(["matcher"])
        ops.append(["corpus"])
        for i in range(n):
            ops.append(["doc", r.choice([i, i, (1 << 32) + i, (1 << 63) + i])])
            for _ in range(r.randint(1, 2)):
                ops.append(["add_text", -1, r.choice(fields), text()])
            ops.append(["corpus_add", -1, -1])
        ops.append(["index", -1, -1])
        if r.random() < 0.4:
            ops.append(["weights_of", -1])
            ops.append(["set_weight", -1, r.choice(fields), r.choice([0.5, 2.0, 0.0, 3, 0.125])])
        if r.random() < 0.4:
            ops.append(["errors_of", -1])
            ops.append(r.choice([["substring", -1], ["end_deletion", -1, r.choice([0, 20, 150])], ["set_error", -1, letter(), letter(), r.choice([0, 5, 250])], ["standard", -1]]))
        ops.append(["match", -1, text()])
    weighted = [("word", 5), ("wl", 3), ("wl_copy", 2), ("wl_add", 5), ("wl_get", 6), ("wl_iter", 2), ("wl_index_bad", 2), ("split", 4), ("doc", 3), ("doc_copy", 2),
                ("add_text", 6), ("get_text", 6), ("get_text_bad", 1), ("corpus", 2), ("corpus_add", 4), ("matcher", 2), ("index", 4), ("match", 6), ("match_bad", 1),
                ("errors_of", 3), ("weights_of", 3), ("results", 1), ("add_results", 2), ("result_bad", 2), ("errors", 2), ("standard", 1), ("substring", 2), ("end_deletion", 2),
                ("set_error", 4), ("set_error_bad", 1), ("get_error", 4), ("clear_errors", 1), ("set_weight", 3), ("get_weight", 2), ("weights", 1), ("word_bad", 3), ("bad", 3),
                ("drop", 8), ("churn", 2), ("check", 2)]
    names = [n for n, w in weighted for _ in range(w)]
    # Each program leans on a few operations.
    lean = [r.choice(names) for _ in range(r.randint(2, 8))]
    for _ in range(r.choice([4, 10, 20, 40])):
        op = r.choice(lean) if r.random() < 0.5 else r.choice(names)
        a = [op, ref()]
        if op == "word":
            a = [op, word()]
        elif op == "word_bad":
            a = [op, r.choice(["two words", "a\tb", " ", "\n", "a ", "\ud800", "a\udfff"] + [list(b) for b in BAD_BYTES])]
        elif op in ("wl", "corpus", "matcher", "results", "errors", "weights", "churn", "check"):
            a = [op]
        elif op in ("wl_add", "corpus_add", "index", "add_results", "wl_get", "wl_index_bad", "result_bad"):
            a = [op, ref(), ref()]
        elif op in ("split", "wl_from"):
            a = [op, text()]
        elif op == "doc":
            a = [op, r.choice([0, 1, 2, 3, (1 << 32) + 1, (1 << 64) - 3])]
        elif op == "add_text":
            a = [op, ref(), r.choice(fields), text()]
        elif op in ("get_text",):
            a = [op, ref(), ref()]
        elif op == "match":
            a = [op, ref(), text()]
        elif op == "match_bad":
            a = [op, ref(), list(r.choice(BAD_BYTES))]
        elif op == "end_deletion":
            a = [op, ref(), r.choice([0, 10, 100, 200, 33000, 65536 + 15])]
        elif op in ("set_error",):
            a = [op, ref(), letter(), letter(), r.choice([0, 1, 15, 60, 200, 1000, 30000, 40000, 65536, 1000000])]
        elif op == "set_error_bad":
            a = [op, ref(), r.choice([-1, 65536, 1 << 20, 1 << 70]), letter()]
        elif op == "get_error":
            a = [op, ref(), letter(), letter()]
        elif op == "set_weight":
            a = [op, ref(), r.choice(fields), r.choice([0.5, 2, 0.0, 1e6, 0.1])]
        elif op == "get_weight":
            a = [op, ref(), r.choice(fields)]
        elif op == "drop":
            a = [op, ref(), ref()]
        elif op == "bad":
            a = [op, ref(), ref()]
        ops.append(a)
    return ops


# ------------------------------------------------------------------ executor
class Obj:
    """A live Python object and what the model says about it; `source` is what it came from."""
    def __init__(self, o, m, source=None):
        self.o, self.m, self.source, self.stale = o, m, source, False


KINDS = ["word", "wl", "doc", "corpus", "matcher", "results", "errors", "weights"]


class Run:
    def __init__(self, C):
        self.C = C
        self.live = {k: [] for k in KINDS}
        self.labels = {}
        self.nontrivial = False
        self.junk = []

    def label(self, n):
        self.labels[n] = self.labels.get(n, 0) + 1

    def pick(self, kind, ref):
        l = self.live[kind]
        return (l[-1] if ref == -1 else l[ref % len(l)]) if l else None

    def add(self, kind, o, m, source=None):
        l = self.live[kind]
        l.append(Obj(o, m, source))
        if len(l) > 12:
            self.forget(kind, 0)

    def forget(self, kind, i):
        x = self.live[kind].pop(i)
        self.touched(x)
        x.o = None  # objects made from x still refer to this record

    def touched(self, x):
        """x changed or died: everything derived from it must not notice."""
        for k in KINDS:
            for y in self.live[k]:
                if y.source is x:
                    y.stale = True

    def refused(self, what, f):
        try:
            f()
        except Failure:
            raise
        except Exception as e:
            self.label("refused")
            return e
        raise Failure("%s was not refused" % what)

    # -- checks of one object
    def check_word(self, x):
        s = x.o.get_string()
        need(s == x.m, "word reads %r, expected %r" % (s, x.m))
        need(len(x.o) == units(x.m), "word %r has length %d, expected %d" % (x.m, len(x.o), units(x.m)))

    def check_wl(self, x):
        need(len(x.o) == len(x.m), "word list has length %d, expected %d" % (len(x.o), len(x.m)))
        got = [x.o[i].get_string() for i in range(len(x.m))]
        need(got == x.m, "word list holds %r, expected %r" % (got, x.m))

    def check_doc(self, x):
        did, fields = x.m
        need(x.o.get_id() == did, "document id is %r, expected %r" % (x.o.get_id(), did))
        need(x.o.field_count() == len(fields), "document has %d fields, expected %d" % (x.o.field_count(), len(fields)))
        for f, ws in fields.items():
            t = x.o.get_text(self.C.Word(f))
            got = [t[i].get_string() for i in range(len(t))]
            need(got == ws, "field %r reads %r, expected %r" % (f, got, ws))

    def check_corpus(self, x):
        need(len(x.o) == len(x.m) and x.o.size() == len(x.m), "corpus has %d documents, expected %d" % (len(x.o), len(x.m)))

    def check_results(self, x):
        need(len(x.o) == len(x.m), "%d results, expected %d" % (len(x.o), len(x.m)))
        got = [(x.o.get_document_id(i), x.o.get_relevancy(i)) for i in range(len(x.m))]
        need(got == x.m, "results are %r, expected %r" % (got[:20], x.m[:20]))

    def check_errors(self, x):
        if x.m.unknown:
            return
        pairs = list(x.m.single)[:30] + [(ord(a), ord(b)) for a in "ae\xe9" for b in "ae\xe8w"]
        for a, b in pairs:
            got, want = x.o.get_substitute_error(a, b), x.m.sub(a, b)
            need(got == want, "substituting U+%04X by U+%04X costs %r, expected %r" % (a, b, got, want))

    def check_weights(self, x):
        for f, v in list(x.m.items()) + [("neverset", 1.0)]:
            got = x.o.get_weight(self.C.Word(f))
            need(got == v, "weight of %r is %r, expected %r" % (f, got, v))

    def check_matcher(self, x):
        pass

    def check(self, kind, x):
        getattr(self, "check_" + kind)(x)
        if x.stale:
            self.label("read after its source changed or died")
            self.nontrivial = True

    def check_all(self):
        for k in KINDS:
            for x in self.live[k]:
                self.check(k, x)

    # -- operations
    def do(self, op):
        C, name, a = self.C, op[0], op[1:]
        if name == "word":
            o = C.Word(a[0])
            self.add("word", o, fold(a[0]))
            self.check("word", self.live["word"][-1])
        elif name == "word_bad":
            t = a[0] if isinstance(a[0], str) else bytes(a[0])
            self.refused("Word(%r)" % t, lambda: C.Word(t))
        elif name == "wl":
            self.add("wl", C.WordList(), [])
        elif name == "wl_copy":
            x = self.pick("wl", a[0])
            if x:
                self.add("wl", C.WordList(x.o), list(x.m), x)
        elif name == "wl_add":
            x, w = self.pick("wl", a[0]), self.pick("word", a[1])
            if x and w:
                x.o.add_word(w.o)
                x.m.append(w.m)
                self.touched(x)
                self.check("wl", x)
        elif name == "wl_get":
            x = self.pick("wl", a[0])
            if x and x.m:
                i = a[1] % len(x.m)
                self.add("word", x.o[i], x.m[i], x)
                self.check("word", self.live["word"][-1])
        elif name == "wl_iter":
            x = self.pick("wl", a[0])
            if x:
                got = [w.get_string() for w in x.o]
                need(got == x.m, "iterating a word list gives %r, expected %r" % (got, x.m))
        elif name == "wl_index_bad":
            x = self.pick("wl", a[0])
            if x:
                i = [len(x.m), len(x.m) + 1, -1, (1 << 64) - 1, 1 << 64][a[1] % 5]
                self.refused("index %d of a word list of %d" % (i, len(x.m)), lambda: x.o[i])
        elif name == "split":
            o = C.split_to_words(a[0])
            self.add("wl", o, words_of(a[0]))
            self.check("wl", self.live["wl"][-1])
        elif name == "doc":
            self.add("doc", C.Document(a[0]), (a[0], {}))
        elif name == "doc_copy":
            x = self.pick("doc", a[0])
            if x:
                self.add("doc", C.Document(x.o), copy.deepcopy(x.m), x)
        elif name == "add_text":
            x = self.pick("doc", a[0])
            if x:
                x.o.add_text(C.Word(a[1]), a[2])
                x.m[1][fold(a[1])] = words_of(a[2])
                self.touched(x)
                self.check("doc", x)
        elif name == "get_text":
            x = self.pick("doc", a[0])
            if x and x.m[1]:
                f = sorted(x.m[1])[a[1] % len(x.m[1])]
                self.add("wl", x.o.get_text(C.Word(f)), list(x.m[1][f]), x)
                self.check("wl", self.live["wl"][-1])
        elif name == "get_text_bad":
            x = self.pick("doc", a[0])
            if x:
                self.refused("a field the document does not have", lambda: x.o.get_text(C.Word("nosuchfield")))
                self.check("doc", x)
        elif name == "corpus":
            self.add("corpus", C.Corpus(), [])
        elif name == "corpus_add":
            x, d = self.pick("corpus", a[0]), self.pick("doc", a[1])
            if x and d and d.m[0] not in [i for i, _ in x.m]:
                x.o.add_document(d.o)
                x.m.append(copy.deepcopy(d.m))
                self.check("corpus", x)
        elif name == "matcher":
            m = Engine()
            m.ids = set()
            self.add("matcher", C.Matcher(), m)
        elif name == "index":
            x, c = self.pick("matcher", a[0]), self.pick("corpus", a[1])
            if x and c and c.m and not (x.m.ids & {i for i, _ in c.m}):
                x.o.index(c.o)
                x.m.index(copy.deepcopy(c.m))
                x.m.ids |= {i for i, _ in c.m}
                self.touched(c)
        elif name == "match":
            x = self.pick("matcher", a[0])
            if x:
                res = x.o.match(a[1])
                pairs = [(res.get_document_id(i), res.get_relevancy(i)) for i in range(len(res))]
                rels = [p[1] for p in pairs]
                need(all(p >= q for p, q in zip(rels, rels[1:])), "results are not in non-increasing relevancy: %r" % pairs)
                if not x.m.costs.unknown:
                    want = x.m.match(words_of(a[1]))
                    got = dict(pairs)
                    need(len(got) == len(pairs), "a document occurs twice in %r" % pairs)
                    need(set(got) == set(want), "query %r found documents %r, expected %r" % (a[1], sorted(got), sorted(want)))
                    for d in want:
                        need(abs(got[d] - want[d]) <= 1e-9 * max(1.0, abs(want[d])), "query %r gives document %d relevancy %r, expected %r" % (a[1], d, got[d], want[d]))
                    if want:
                        self.label("search that found something")
                        self.nontrivial = True
                self.add("results", res, pairs, x)
        elif name == "match_bad":
            x = self.pick("matcher", a[0])
            if x:
                self.refused("a malformed query", lambda: x.o.match(bytes(a[1])))
        elif name == "errors_of":
            x = self.pick("matcher", a[0])
            if x:
                self.add("errors", x.o.get_errorvalues(), x.m.costs, x)
        elif name == "weights_of":
            x = self.pick("matcher", a[0])
            if x:
                self.add("weights", x.o.get_indexweights(), x.m.weights, x)
        elif name == "results":
            self.add("results", C.MatchResults(), [])
        elif name == "add_results":
            x, y = self.pick("results", a[0]), self.pick("results", a[1])
            if x and y and x is not y and len(x.m) + len(y.m) < 200:
                x.o.add_results(y.o)
                x.m = sorted(x.m + y.m, key=lambda p: -p[1])
                self.check("results", x)
                self.check("results", y)
        elif name == "result_bad":
            x = self.pick("results", a[0])
            if x:
                i = [len(x.m), len(x.m) + 1, -1, (1 << 64) - 1, 1 << 64][a[1] % 5]
                self.refused("result %d of %d" % (i, len(x.m)), lambda: x.o.get_document_id(i))
                self.refused("relevancy of result %d of %d" % (i, len(x.m)), lambda: x.o.get_relevancy(i))
        elif name == "errors":
            need(C.ErrorValues.get_default_error() == DEF, "default error is %r" % C.ErrorValues.get_default_error())
            need(C.ErrorValues.get_substring_default_end_deletion_error() == 15, "substring end deletion error is %r" % C.ErrorValues.get_substring_default_end_deletion_error())
            self.add("errors", C.ErrorValues(), Costs())
        elif name == "standard":
            x = self.pick("errors", a[0])
            if x and not x.m.unknown:
                if x.m.standard:
                    self.refused("loading the accents twice", lambda: x.o.add_standard_errors())
                    x.m.unknown = True
                else:
                    x.o.add_standard_errors()
                    x.m.add_standard()
                    self.label("standard errors")
                self.check("errors", x)
        elif name == "substring":
            x = self.pick("errors", a[0])
            if x:
                x.o.set_substring_mode()
                x.m.start_ins = x.m.end_del = 15
                x.m.limit = 3
        elif name == "end_deletion":
            x = self.pick("errors", a[0])
            if x:
                x.o.set_end_deletion_error(a[1])
                x.m.end_del = a[1]
        elif name == "set_error":
            x = self.pick("errors", a[0])
            if x:
                x.o.set_error(a[1], a[2], a[3])
                x.m.set(a[1], a[2], a[3])
                self.check("errors", x)
        elif name == "set_error_bad":
            x = self.pick("errors", a[0])
            if x:
                self.refused("a letter of %d" % a[1], lambda: x.o.set_error(a[1], a[2], 10))
                self.refused("a letter of %d" % a[1], lambda: x.o.get_substitute_error(a[2], a[1]))
        elif name == "get_error":
            x = self.pick("errors", a[0])
            if x and not x.m.unknown:
                got, want = x.o.get_substitute_error(a[1], a[2]), x.m.sub(a[1], a[2])
                need(got == want, "substituting U+%04X by U+%04X costs %r, expected %r" % (a[1], a[2], got, want))
        elif name == "clear_errors":
            x = self.pick("errors", a[0])
            if x:
                x.o.clear_errors()
                x.m.clear()
                self.check("errors", x)
        elif name == "weights":
            self.add("weights", C.IndexWeights(), {})
        elif name == "set_weight":
            x = self.pick("weights", a[0])
            if x:
                x.o.set_weight(C.Word(a[1]), a[2])
                x.m[fold(a[1])] = float(a[2])
                self.check("weights", x)
        elif name == "get_weight":
            x = self.pick("weights", a[0])
            if x:
                got, want = x.o.get_weight(C.Word(a[1])), x.m.get(fold(a[1]), 1.0)
                need(got == want, "weight of %r is %r, expected %r" % (a[1], got, want))
        elif name == "bad":
            self.bad(a[0], a[1])
        elif name == "drop":
            kinds = [k for k in KINDS if self.live[k]]
            if kinds:
                k = kinds[a[0] % len(kinds)]
                self.forget(k, a[1] % len(self.live[k]))
                gc.collect()
        elif name == "churn":
            self.junk = [C.split_to_words("q w e r t y" * k) for k in (1, 5, 30)]
            self.junk = [C.Word("z" * 60) for _ in range(20)]
        elif name == "check":
            self.check_all()

    def bad(self, which, ref):
        C = self.C

        class Hollow(C.Word):
            def __init__(self):
                pass
        word, wl, doc, matcher, ev, iw = (self.pick(k, ref) for k in ("word", "wl", "doc", "matcher", "errors", "weights"))
        tries = [("Word(None)", lambda: C.Word(None)), ("Word()", lambda: C.Word()), ("Word(5)", lambda: C.Word(5)), ("Document(-1)", lambda: C.Document(-1)),
                 ("Document(2**64)", lambda: C.Document(1 << 64)), ("Document('x')", lambda: C.Document("x")), ("split_to_words(None)", lambda: C.split_to_words(None)),
                 ("the length of an unconstructed word", lambda: len(Hollow())), ("the text of an unconstructed word", lambda: Hollow().get_string()),
                 ("split_to_words of bad bytes", lambda: C.split_to_words(b"ok \xff")), ("split_to_words of a surrogate", lambda: C.split_to_words("ok \ud800"))]
        if wl:
            tries += [("add_word(None)", lambda: wl.o.add_word(None)), ("add_word(5)", lambda: wl.o.add_word(5)), ("adding an unconstructed word", lambda: wl.o.add_word(Hollow())),
                      ("wl['x']", lambda: wl.o["x"]), ("WordList(None)", lambda: C.WordList(None))]
        if doc:
            tries += [("add_text(None)", lambda: doc.o.add_text(None, "x")), ("add_text of None", lambda: doc.o.add_text(C.Word("f"), None)),
                      ("add_text of a malformed text", lambda: doc.o.add_text(C.Word("f"), b"ok \xc3")), ("get_text(None)", lambda: doc.o.get_text(None)),
                      ("add_text with a hollow field", lambda: doc.o.add_text(Hollow(), "x"))]
        if matcher:
            tries += [("index(None)", lambda: matcher.o.index(None)), ("match(None)", lambda: matcher.o.match(None)), ("match(5)", lambda: matcher.o.match(5))]
        if ev:
            tries += [("set_error('a','b',1)", lambda: ev.o.set_error(None, "b", 1)), ("set_error cost None", lambda: ev.o.set_error(97, 98, None)), ("set_error cost too big", lambda: ev.o.set_error(97, 98, 1 << 40))]
        if iw:
            tries += [("set_weight(None)", lambda: iw.o.set_weight(None, 1.0)), ("set_weight of None", lambda: iw.o.set_weight(C.Word("f"), None)), ("get_weight(hollow)", lambda: iw.o.get_weight(Hollow()))]
        what, f = tries[which % len(tries)]
        self.refused(what, f)
        for k, x in (("wl", wl), ("doc", doc), ("errors", ev), ("weights", iw)):
            if x:
                self.check(k, x)


def run_program(C, ops):
    r = Run(C)
    for n, op in enumerate(ops):
        try:
            r.do(op)
        except Failure as e:
            raise Failure("operation %d (%s): %s" % (n, op[0], e))
        except Exception as e:
            raise Failure("operation %d (%s) raised %s: %s" % (n, op[0], type(e).__name__, e))
    try:
        r.check_all()
        # Sources first, then what came from them.
        for k in ["matcher", "corpus", "doc", "wl", "word", "results", "errors", "weights"]:
            while r.live[k]:
                r.forget(k, 0)
            gc.collect()
            for k2 in KINDS:
                for x in r.live[k2]:
                    r.check(k2, x)
    except Failure as e:
        raise Failure("at the end: %s" % e)
    except Exception as e:
        raise Failure("at the end, reading raised %s: %s" % (type(e).__name__, e))
    return r


def main():
    ap = argparse.ArgumentParser()
    for x in ("module", "status", "out", "program"):
        ap.add_argument("--" + x)
    for x in ("seed", "start", "count"):
        ap.add_argument("--" + x, type=int, default=0)
    ap.add_argument("--max-seconds", type=float, default=1e9)
    a = ap.parse_args()
    sys.path.insert(0, a.module)
    import columbus as C
    data = os.environ["COLUMBUS_DATADIR"]
    Costs.accents = []
    for f in ("latin", "greek"):
        Costs.accents += [fold(l.strip()) for l in open(os.path.join(data, f + "AccentedLetterGroups.txt"), encoding="utf-8") if l.strip()]
    t0 = time.time()
    res = dict(evaluations=0, nontrivial=0, hashes=[], labels={}, samples=[], violation=None, time_limit_hit=False)

    def finish(code):
        with open(a.out, "w") as f:
            json.dump(res, f)
        sys.exit(code)
    if a.program:
        ops = json.load(open(a.program))
        try:
            run_program(C, ops)
        except Failure as e:
            res["violation"] = dict(message=str(e), program=ops)
            finish(1)
        finish(0)
    st = os.open(a.status, os.O_RDWR | os.O_CREAT)
    for i in range(a.start, a.start + a.count):
        if time.time() - t0 > a.max_seconds:
            res["time_limit_hit"] = True
            break
        os.pwrite(st, b"%-20d" % i, 0)
        ops = gen_program(a.seed, i)
        try:
            r = run_program(C, ops)
        except Failure as e:
            res["violation"] = dict(message=str(e), program=ops, index=i)
            finish(1)
        res["evaluations"] += 1
        for k, v in r.labels.items():
            res["labels"][k] = res["labels"].get(k, 0) + 1
        if r.nontrivial:
            res["nontrivial"] += 1
            res["hashes"].append(int(hashlib.sha256(json.dumps(ops).encode()).hexdigest()[:15], 16))
            if len(res["samples"]) < 1 and len(ops) < 25:
                res["samples"].append(ops)
    finish(0)


main()
