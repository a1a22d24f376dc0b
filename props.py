# id -> how to build it (flavour, extra sources, other library configurations)
PROPS = {
    'C01': {}, 'C02': {}, 'C03': {}, 'C04': {}, 'C05': {}, 'C06': {}, 'C07': {}, 'C08': {}, 'C09': {}, 'C10': {}, 'C11': {}, 'C12': {}, 'C13': {}, 'C14': {}, 'C15': dict(flavour='bb', extra=['coro.cpp', 'rel.cpp']),
    'C31': dict(so=['base', 'int', 'noctrlc', 'quietp', 'prof2', 'O0', 'dense', 'noequil', 'altequil']),
    'C34': dict(flavour='trace'),
    'C35': dict(flavour='mi'),
    'C36': dict(flavour='fill', extra=['alloc.cpp']),
    'C33': dict(flavour='log', extra=['rel.cpp', 'logx.cpp']),
    'C25': {}, 'C26': {}, 'C27': {}, 'C28': {}, 'C29': {}, 'C30': {}, 'C32': {},
    'C23': dict(flavour='mi', extra=['rel.cpp']), 'C24': dict(flavour='mi', extra=['rel.cpp']),
    'C22': dict(flavour='mi', extra=['rel.cpp']),
    'C21': dict(flavour='mi', extra=['rel.cpp']),
    'C20': dict(flavour='mi', extra=['rel.cpp']),
    'C19': dict(flavour='sig', extra=['rel.cpp', 'sigx.cpp']),
    'C18': dict(flavour='fill', extra=['alloc.cpp']),
    'C16': dict(flavour='asan', extra=['alloc.cpp']), 'C17': dict(flavour='msan', extra=['alloc.cpp', 'msan.cpp']),
}
