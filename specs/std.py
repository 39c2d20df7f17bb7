"""What the collections module does for classes made from it."""


def list_iter(self):
    out = []
    for i in range(len(self.data)):
        out.append(self[i])
    return out


def dict_items(self):
    return [(k, self[k]) for k in self.data]


def dict_values(self):
    return [self[k] for k in self.data]


def dict_get(self, key, default=None):
    if key in self.data:
        return self[key]
    return default
