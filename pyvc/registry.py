"""Which contract modules speak about which property."""
MODULES = {
    'C01': ['field'],
    'C02': ['field'],
    'C04': ['kwindex'],
    'C05': ['kwindex'],
    'C06': ['topicx'],
    'C07': ['nbestx'],
    'C08': ['setopsx'],
    'C09': ['widcodex'],
    'C11': ['lexx'],
    'C13': ['searchx'],
    'C14': ['textx'],
    'C15': ['searchx'],
    'C16': ['parsex'],
    'C18': ['searchx'],
    'C19': ['searchx'],
    'C21': ['framex'],
    'C22': ['famx'],
    'C23': ['persx'],
    'C24': ['lexx'],
}

# assumed contracts of a module that another one verifies (by qualified name),
# and the property under which it does
ELSEWHERE = {
    'widcodex': 'C09',
}
