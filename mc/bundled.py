"""The bundled dictionaries: the library's and the model's side, loaded once per process."""
import os
import re
from collections import defaultdict

from .ref import Model

NAMES = {'en': 'en_US', 'ru': 'ru', 'sv': 'sv_SE'}


class Lazy:
    """The table ``text -> derivations`` of a large dictionary, computed for the texts asked for.

    Affixes are taken off the text to find the entries it might come from; what counts is then whether one of the
    derivations of the entry gives the text."""

    def __init__(self, model, bases):
        self.model = model
        self.index = defaultdict(list)
        for entry in model.entries:
            for base in bases(entry):
                self.index[base].append(entry)
        self.known = {}
        self.rules = {}
        for kind in ('SFX', 'PFX'):
            self.rules[kind] = defaultdict(set)
            for affixes in model.aff.affixes[kind].values():
                for a in affixes:
                    self.rules[kind][a.add].add(a.strip)
        self.longest = {kind: max(map(len, self.rules[kind]), default=0) for kind in self.rules}

    def without(self, kind, text):
        for n in range(min(self.longest[kind], len(text)) + 1):
            if kind == 'SFX':
                for strip in self.rules[kind].get(text[len(text) - n:], ()):
                    yield text[:len(text) - n] + strip
            else:
                for strip in self.rules[kind].get(text[:n], ()):
                    yield strip + text[n:]

    def stems(self, text):
        seen = {text}
        level = {text}
        for _ in range(2 if self.model.aff.COMPLEXPREFIXES else 1):
            level = {s for t in level for s in self.without('PFX', t)} - seen
            seen |= level
        level = set(seen)
        for _ in range(2):
            level = {s for t in level for s in self.without('SFX', t)} - seen
            seen |= level
        return seen

    def get(self, text, default=()):
        res = []
        for stem in self.stems(text):
            if stem in self.index:
                for entry in self.index[stem]:
                    key = entry.no, stem
                    if key not in self.known:
                        if len(self.known) > 20000:
                            self.known.clear()
                        forms = self.known[key] = defaultdict(list)
                        for form, derived in self.model.derive(entry, stem):
                            forms[derived].append(form)
                    res += self.known[key].get(text, ())
        return res or default


class LargeModel(Model):
    def build(self, table, bases):
        lazy = Lazy(self, bases)
        if table is self.table:
            self.table = lazy
        elif table is self.table_ci:
            self.table_ci = lazy
        else:
            self.table_cap = lazy


def texts(lang):
    import spylls.hunspell
    path = os.path.join(os.path.dirname(os.path.abspath(spylls.hunspell.__file__)), 'data', lang, NAMES[lang])
    with open(path + '.aff', 'rb') as f:
        raw = f.read()
    encoding = re.search(rb'^SET\s+(\S+)', raw, re.M).group(1).decode()
    with open(path + '.dic', 'rb') as f:
        return raw.decode(encoding), f.read().decode(encoding)


_loaded = {}


def get(ctx, lang):
    """(model, dictionary)"""
    if lang not in _loaded:
        from spylls.hunspell import Dictionary
        _loaded[lang] = LargeModel(*texts(lang)), ctx.call('load', Dictionary.from_files, NAMES[lang])
    return _loaded[lang]
