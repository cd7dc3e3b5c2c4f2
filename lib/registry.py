"""What decides each property: 'verus' = modules of lib/ that extract functions and contracts; 'native' = bounded stand-in and replay."""
PROPS = {'C%02d' % i: {'level': 'other', 'native': True} for i in range(1, 27)}


def proof(p, *mods):
    PROPS[p].update(level='proof', verus=list(mods))


proof('C01', 'v_c01')
proof('C02', 'v_c02')
proof('C06', 'v_c06')
proof('C07', 'v_c07')
proof('C08', 'v_c08')
proof('C09', 'v_c09')
proof('C18', 'v_c18', 'v_c18g')
proof('C10', 'v_c10')
proof('C11', 'v_c11')
proof('C12', 'v_c12')
proof('C22', 'v_c22')
proof('C21', 'v_c21')
proof('C25', 'v_c25')
proof('C23', 'v_c23')
proof('C20', 'v_c20')
proof('C13', 'v_c13')
proof('C03', 'v_c03')
proof('C04', 'v_c04')
proof('C26', 'v_c26')
proof('C24', 'v_c24')
proof('C05', 'v_c05', 'v_c24')
proof('C17', 'v_c17')
proof('C14', 'v_c14', 'v_c14a', 'v_c14b')
