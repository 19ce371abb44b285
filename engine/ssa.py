"""Loads the JSON written by ssadump."""
import json
import val


class Prog:
    def __init__(self, path):
        j = json.load(open(path))
        self.types = j['types']
        self.funcs = j['funcs']
        self.globals = j['globals']
        self.files = j['files']
        self.BASIC = {
            'bool': (1, False), 'int': val.INT, 'int8': (8, True), 'int16': (16, True),
            'int32': (32, True), 'int64': (64, True), 'uint': (val.WORD, False), 'uint8': (8, False),
            'byte': (8, False), 'uint16': (16, False), 'uint32': (32, False), 'rune': (32, True),
            'uint64': (64, False), 'uintptr': (val.WORD, False), 'untyped int': val.INT,
            'untyped bool': (1, False)}

    def t(self, i):
        return self.types[i]

    def int_ty(self, i):
        t = self.types[i]
        if t['k'] == 'basic':
            return self.BASIC.get(t['name'])
        return None

    def is_bool(self, i):
        t = self.types[i]
        return t['k'] == 'basic' and t['name'] in ('bool', 'untyped bool')

    def tname(self, i):
        """short name of a named type: 'edwards25519.FieldElement'"""
        t = self.types[i]
        if 'named' in t:
            return t.get('pkg', '').split('/')[-1] + '.' + t['named']
        return None

    def elem(self, i):
        return self.types[i]['elem']

    def find(self, suffix):
        return [n for n in self.funcs if n.endswith(suffix)]
