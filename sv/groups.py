"""Which probe binaries and structural rules decide which property."""

# Violations of rules tagged with a property count for that property only. Violations of the
# interpreter's own rules count as follows.
AUTO = {
    'mem': 'all',    # access outside of live memory, uninitialised read, ...
    'ub': 'all',     # undefined behaviour
    'align': 'all',  # misaligned access or reference
    'panic': 'all',  # panic where specification has none
    'alloc': ('C06', 'C08', 'C17', 'C18', 'C20', 'C21'),
    'leak': ('C06', 'C08', 'C17', 'C18', 'C20', 'C21'),
    'ro': ('C01', 'C02', 'C03', 'C04', 'C12', 'C15', 'C16'),
}

# property -> probe binaries
STORE = ['storage', 'history', 'made', 'custom', 'shapes']
COMPLETE = ['complete', 'complete_room', 'complete_limit']
OFFSET = ['ptr_offset', 'ptr_offset_room', 'ptr_offset_limit']
PURE = ['pure_copy', 'pure_copy_room', 'pure_copy_limit']
LIMIT = ['complete_limit', 'ptr_offset_limit', 'pure_copy_limit']
LENT = ['complete_lent', 'ptr_offset_lent', 'pure_copy_lent']
BINS = {
    'C01': COMPLETE + ['many', 'visits'],
    'C02': COMPLETE + ['complete_lent', 'many', 'scope'],
    'C03': OFFSET + ['many_other', 'visits'],
    'C04': PURE + ['many_other', 'visits'],
    'C05': STORE,
    'C06': STORE + COMPLETE + LENT + ['visits'],
    'C07': STORE,
    'C08': STORE,
    'C09': STORE + LENT + ['scope'],
    'C10': COMPLETE,
    'C11': ['derive'],
    'C12': ['derived'],
    'C13': ['visits'],
    'C15': COMPLETE + OFFSET + PURE + ['many', 'many_other', 'scope', 'panics', 'bigint'],
    'C16': ['sync'],
    'C17': STORE + LIMIT + ['panics'],
    'C18': STORE,
    'C19': STORE + ['visits'],
    'C20': LENT + ['many', 'many_other', 'made'],
    'C21': ['bigint'],
    'C22': ['scope'],
    'C23': ['storage', 'shapes'],
    'C24': STORE + LIMIT,
}

# In these binaries a broken rule of any property breaks the property which the binary is about:
# they state the whole of what serializers do.
ALL = {
    'C01': COMPLETE + ['many'],
    'C03': OFFSET,
    'C04': PURE,
    'C11': ['derive'],
    'C12': ['derived'],
    'C13': ['visits'],
    'C20': LENT,
    'C21': ['bigint'],
    'C22': ['scope'],
}

# Same, for probes with names which start like this: they state the whole of what the operations
# do which the property is about.
FOCUS = {
    'C03': ('many_other/offset_',),
    'C04': ('many_other/pure_',),
    'C20': ('many/row', 'many_other/offset_row', 'many_other/pure_row'),
    'C05': ('storage/align_', 'shapes/align_', 'made/arithmetic'),
    'C07': ('storage/reserve_', 'shapes/reserve_', 'storage/steps_', 'shapes/steps_'),
    'C09': ('custom/gap_', 'storage/push_', 'shapes/push_', 'storage/empty_', 'shapes/empty_', 'storage/steps_', 'shapes/steps_', 'made/raw_'),
    'C17': ('storage/after_panic_', 'shapes/after_panic_',),
    'C18': ('storage/new_', 'shapes/new_', 'storage/with_capacity_', 'shapes/with_capacity_', 'storage/clear_', 'shapes/clear_', 'storage/shrink_', 'shapes/shrink_', 'made/made_'),
    'C19': ('storage/push_zst_', 'shapes/push_zst_', 'made/raw_complete_zst', 'made/raw_offset_zst', 'made/raw_pure_zst'),
    'C23': ('storage/access_', 'shapes/access_', 'storage/value_', 'shapes/value_'),
}

# Same, for rules with texts which contain one of the second
PART = {
    'C01': (('visits/complete_',), ('not every', 'was not visited once')),
    'C03': (('visits/offset_',), ('not every', 'was not visited once')),
    'C04': (('visits/pure_',), ('C13:',)),
}

# Analysed in addition by thorough check
DEEP = {
    'storage': ['history_deep'],
}


def bins_of(prop, tier):
    out = list(BINS.get(prop, []))
    if tier == 'thorough':
        for b in list(out):
            out += [x for x in DEEP.get(b, ()) if x not in out]
    return out


# property -> structural rules (module `rules`)
RULES = {
    'C14': ['witnesses'],
    'C16': ['effects'],
}
TECH = {
    'C14': 'compile-fail witnesses with compiling twins',
    'C16': 'effect and ownership analysis over the resolved call and static references of every body',
}

# Obligations of interpreter's own rules which are obligations of a property
OWN = {
    'C05': ('align',),
    'C06': ('mem', 'ub', 'align', 'panic'),
    'C08': ('alloc', 'leak'),
    'C15': ('ro',),
    'C16': ('ro',),
    'C24': ('panic',),
}


def tags(tag):
    """Properties named by tag of a rule ("C01,C02"), or None if it's one of interpreter's own"""
    return tag.split(',') if tag[0] == 'C' and tag[1:3].isdigit() else None


def counts_for(tag, prop, bin=None, probe=None):
    t = tags(tag)
    if t is not None:
        if prop in t or bin in ALL.get(prop, ()):
            return True
        return probe is not None and ('%s/%s' % (bin, probe)).startswith(FOCUS.get(prop, ('\0',)))
    a = AUTO.get(tag)
    return a is None or a == 'all' or prop in a


def wanted(prop, bin, probe):
    """Is a probe of a binary part of the check. Of those in `PART`, some are"""
    probes = PART.get(prop, ((),))[0]
    return not any(p.startswith(bin + '/') for p in probes) or ('%s/%s' % (bin, probe.split('::')[-1])).startswith(tuple(probes))


def violates(v, prop, bin, probe):
    if counts_for(v['tag'], prop, bin, probe):
        return True
    probes, texts = PART.get(prop, ((), ()))
    return ('%s/%s' % (bin, probe)).startswith(tuple(probes)) and any(t in v['rule'] for t in texts)


def of_prop(tag, prop, bin=None, probe=None):
    """Is an obligation with this tag one of property's"""
    return counts_for(tag, prop, bin, probe) if tags(tag) else tag in OWN.get(prop, ())


ASSUME = [
    'generic code is analysed for the type and storage parameters instantiated by the probes',
    'where values contain a Vec of types which have contents of their own, it has at most 2 elements (element visits are otherwise generalised by loop invariants)',
    'end-to-end probes of serializers: lengths and capacities up to 2^32, position up to 2^40, so that MAX_CAPACITY is not exceeded; in probes *_limit it is, at any point (probes of storage have no such bound)',
    'the allocator returns memory as documented, or fails, in which case alloc::handle_alloc_error aborts',
]
