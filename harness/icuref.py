"""The environment's answers: UTS #46 processing straight from ICU, with the
flags the URL Standard mandates.  Independent of the code under test."""
import icupy.icu as icu

HYPHENS = (icu.UIDNA_ERROR_HYPHEN_3_4 | icu.UIDNA_ERROR_LEADING_HYPHEN
           | icu.UIDNA_ERROR_TRAILING_HYPHEN)
LENGTH = (icu.UIDNA_ERROR_EMPTY_LABEL | icu.UIDNA_ERROR_LABEL_TOO_LONG
          | icu.UIDNA_ERROR_DOMAIN_NAME_TOO_LONG)
_inst = {}


def inst(o):
    if o not in _inst:
        _inst[o] = icu.IDNA.create_uts46_instance(o)
    return _inst[o]


def norm(s):
    return s.encode("utf-16", "surrogatepass").decode("utf-16", "replace")


def ask(d, strict):
    """d: code points.  The table row the specification looks up."""
    s = norm("".join(map(chr, d)))
    n = len(s) + sum(c > "\uffff" for c in s)
    base = icu.UIDNA_CHECK_BIDI | icu.UIDNA_CHECK_CONTEXTJ
    if strict:
        base |= icu.UIDNA_USE_STD3_RULES
    row = {"d": list(d), "strict": strict, "refuse": False}
    for key, flag, meth in (("a", icu.UIDNA_NONTRANSITIONAL_TO_ASCII, "name_to_ascii"),
                            ("u", icu.UIDNA_NONTRANSITIONAL_TO_UNICODE, "name_to_unicode")):
        info, dest = icu.IDNAInfo(), icu.UnicodeString()
        try:
            getattr(inst(base | flag), meth)(icu.UnicodeString(s, n), dest, info)
        except icu.ICUError:      # e.g. a label of more than 1000 code units
            row["refuse"] = row["refuse"] or key == "a"
            row.update({"a": [], "bad": True, "len": True} if key == "a" else {"u": [], "ubad": True})
            continue
        e = info.get_errors() & ~HYPHENS
        row[key] = [ord(c) for c in str(dest)]
        if key == "a":
            row["bad"], row["len"] = bool(e & ~LENGTH), bool(e & LENGTH)
        else:
            row["ubad"] = bool(e & ~LENGTH)
    return row
