"""Which programs decide which property."""


def unit(pid, name='main', **kw):
    u = {'name': name, 'sources': ['checks/%s.cpp' % pid]}
    u.update(kw)
    return u


ASAN = dict(flags=['-fsanitize=address', '-fno-omit-frame-pointer', '-g1'])

# test-framework configurations: include directories and libraries; shims stand for frameworks that are not installed
FRAMEWORKS = {
    'standalone': {},
    'tpunit': {},
    'gtest': dict(libs=['-lgtest', '-lpthread']),
    'catch': dict(libs=['-lCatch2']),
    'boost': dict(libs=['-lboost_unit_test_framework'], defines=['BOOST_TEST_DYN_LINK', 'BOOST_TEST_NO_MAIN']),
    'doctest': dict(isystem=['/usr/include/doctest']),
    'cute': dict(isystem=['{verif}/harness/shim']),
    'mettle': dict(isystem=['{verif}/harness/shim']),
    'mstest': dict(isystem=['{verif}/harness/shim']),
    'qtest': dict(isystem=['{verif}/harness/shim']),
    'nunit': dict(isystem=['{verif}/harness/shim']),
}


def per_framework(pid, where='config', suffix='', **kw):
    units = []
    for fw in sorted(FRAMEWORKS):
        c = dict(FRAMEWORKS[fw])
        c['defines'] = c.get('defines', []) + ['FW_' + fw.upper()]
        c['includes'] = ['{repo}/%s/%s' % (where, fw), '{repo}/include']
        c.update(kw)
        units.append(unit(pid, fw + suffix, **c))
    return units


def variants(pid, std='c++11', **kw):
    """The same program built in other ways, explored one level less; left out where it does not compile."""
    defines = kw.pop('defines', []) + ['MC_SMALL']
    name = kw.pop('name', '')
    return [unit(pid, name + 'gcc-O1-' + std, std=std, opt='-O1', defines=defines, optional=True, **kw),
            unit(pid, name + 'clang', cxx='clang++', defines=defines, optional=True, **kw)]


def parts(pid, n, std='c++14', name='part%d', varied=None, **kw):
    units = [unit(pid, name % p, defines=['PART=%d' % p], **kw) for p in range(n)]
    for p in range(n) if varied is None else varied:
        units += variants(pid, std, defines=['PART=%d' % p], name=name % p + '-', **kw)
    return units


CHECKS = {
    'C01': {'units': [unit('C01')] + variants('C01')},
    'C02': {'units': [unit('C02')] + variants('C02', 'c++14')},
    'C03': {'units': [unit('C03')] + variants('C03')},
    'C04': {'units': [unit('C04')] + variants('C04')},
    'C05': {'units': [unit('C05')] + variants('C05')},
    'C06': {'units': [unit('C06')] + variants('C06')},
    'C07': {'units': [unit('C07')] + variants('C07')},
    'C08': {'units': [unit('C08')] + variants('C08')},
    'C09': {'units': [unit('C09')] + variants('C09', 'c++14')},
    'C10': {'units': parts('C10', 7)},
    'C11': {'units': parts('C11', 6)},
    'C12': {'units': [unit('C12')] + variants('C12')},
    'C13': {'units': parts('C13', 3, varied=[0])},
    'C14': {'units': [unit('C14')] + variants('C14')},
    'C15': {'units': [unit('C15')] + variants('C15')},
    'C16': {'units': [unit('C16'), unit('C16', 'asan', **ASAN), unit('C16', 'ids', sources=['checks/C16_ids.cpp'])] + variants('C16')},
    'C17': {'units': [unit('C17', sources=['checks/C17.cpp', 'checks/C17_tu.cpp'])] +
                     variants('C17', sources=['checks/C17.cpp', 'checks/C17_tu.cpp'])},
    'C18': {'units': parts('C18', 4, 'c++11')},
    'C19': {'units': [unit('C19'), unit('C19', 'asan', **ASAN), unit('C19', 'faults', sources=['checks/C20.cpp'], defines=['LEAKS'])] + variants('C19')},
    'C20': {'units': [unit('C20')] + variants('C20', tier='thorough')},
    'C21': {'units': [unit('C21', 'part%d' % p, defines=['PART=%d' % p]) for p in range(7)] +
                     [unit('C21', 'cpp%d' % v, std='c++%d' % v, defines=['MAXLEN=2'], optional=True) for v in (11, 14)]},
    'C22': {'units': [unit('C22')] + variants('C22')},
    'C23': {'units': per_framework('C23')},
    # the program built with the single header asks the one built with the multi-file headers
    'C24': {'units': per_framework('C24', 'single_header') + per_framework('C24', suffix='-multi', companion=True), 'deep': True},
    'C25': {'units': [unit('C25')] + variants('C25')},
    'C26': {'units': [unit('C26', opt='-O1', defines=['REPO_DIR="{repo}"'])]},
}

# C24: order in which configurations with differing single headers are explored, and the explorers used
DEEP_ORDER = ['standalone', 'tpunit', 'gtest', 'catch', 'boost', 'doctest', 'cute', 'mettle', 'mstest', 'qtest', 'nunit']
DEEP = ['C09', 'C18', 'C05', 'C07', 'C06', 'C01', 'C02', 'C04', 'C03', 'C08', 'C14', 'C15', 'C16', 'C22', 'C12', 'C13', 'C17', 'C10', 'C11', 'C21', 'C25', 'C19', 'C20']
