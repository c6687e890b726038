"""Stand-in for a pandas result table that keeps symbolic values."""


class Column(list):
    def sum(self):
        r = 0
        for x in self:
            r = r + x
        return r

    @property
    def values(self):
        return self

    def tolist(self):
        return list(self)

    to_list = tolist


class _Row(dict):
    pass


class _Loc:
    def __init__(self, t):
        self.t = t

    def __setitem__(self, key, val):
        t = self.t
        if isinstance(key, tuple):
            r, c = key
            if isinstance(c, (list, tuple)) or c == slice(None):
                c = t.columns if c == slice(None) else c
                vals = list(val.values()) if isinstance(val, dict) else list(val)
                for k, v in zip(c, vals):
                    t.rows.setdefault(r, _Row())[k] = v
            else:
                t.rows.setdefault(r, _Row())[c] = val
        else:
            if isinstance(val, dict):
                t.rows[key] = _Row(val)
            else:
                t.rows[key] = _Row(zip(t.columns, list(val)))

    def __getitem__(self, key):
        if isinstance(key, tuple):
            return self.t.rows[key[0]][key[1]]
        return self.t.rows[key]


class Table:
    def __init__(self, columns):
        self.columns = list(columns)
        self.rows = {}
        self.loc = _Loc(self)
        self.at = self.loc

    @property
    def index(self):
        return list(self.rows)

    def __getitem__(self, c):
        return Column(r.get(c) for r in self.rows.values())

    def __len__(self):
        return len(self.rows)
